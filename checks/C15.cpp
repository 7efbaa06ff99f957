// C15: generator<T>, fmap and async_generator<T>. Generated bodies run as generators and as ordinary functions that call
// back for every element.
#include "../lib/vrt_shim.h"
#include <asyncpp/async_generator.h>
#include <asyncpp/generator.h>
#include <asyncpp/task.h>
#include "../lib/helpers.h"
using asyncpp::async_generator;
using asyncpp::generator;
using h::MoveOnly;
using h::QueueDispatcher;
using h::Tracked;

namespace {
	// ------------------------------------------------------------ element types
	int64_t get(int64_t v) { return v; }
	int64_t get(const Tracked& v) { return v.get(); }
	int64_t get(const MoveOnly& v) { return v.get(); }
	void set(int64_t& v, int64_t n) { v = n; }
	void set(Tracked& v, int64_t n) { v.set(n); }
	void set(MoveOnly& v, int64_t n) { v = MoveOnly(n); }
	constexpr int64_t moved_from = Tracked::moved_from;
	template<typename T>
	struct tr {
		using V = std::remove_cvref_t<T>;
		static constexpr bool is_const = std::is_const_v<std::remove_reference_t<T>>;
		static constexpr bool lvalue_ok = !std::is_rvalue_reference_v<T>;   // co_yield x
		static constexpr bool prvalue_ok = !std::is_lvalue_reference_v<T> || is_const; // co_yield V(..)
		static constexpr bool is_int = std::is_same_v<V, int64_t>;
	};

	enum OK { LOG, LOCAL, YIELD_L, YIELD_P, YIELD_M, NESTED, THROW, THROW_INT, SUSPEND, HOP, TASK, RETURN };
	struct Node;
	struct Op {
		OK k;
		int a = 0;
		int mode = 0;
		bool guarded = false;
		std::unique_ptr<Node> child;
	};
	struct Node {
		int id = 0;
		std::vector<Op> ops;
	};
	enum CA { C_READ, C_TWICE, C_MODIFY, C_TAKE, C_MOVE_GEN, C_ARROW, C_SUSPEND, C_HOP, C_COUNT };
	struct Plan {
		std::vector<std::pair<CA, int>> acts; // per element
		int stop_after = -1;                  // elements consumed before the generator is dropped
		CA at(std::size_t i) const { return acts.empty() ? C_READ : acts[i % acts.size()].first; }
		int arg(std::size_t i) const { return acts.empty() ? 0 : acts[i % acts.size()].second; }
	};
	struct Err {
		int64_t id;
		Tracked t;
		explicit Err(int64_t i) : id(i), t(i) {}
	};
	struct Abandon {};
	struct Abandoned {};

	enum EV { E_START = 1, E_LOG, E_DTOR, E_RESUMED, E_BACK, E_CAUGHT, E_CAUGHT_INT, E_END, E_GOT, E_ROOT, E_FUNC, E_CONSUMER, E_BAD };
	int64_t ev(EV k, int64_t a, int64_t b = 0) { return ((int64_t)k << 48) | ((a & 0xffffff) << 24) | (b & 0xffffff); }
	std::string show(int64_t e) {
		static const char* n[] = {"?",		"start", "log", "~local", "resumed",  "back from yield", "caught",
								  "caught int", "end",	 "got", "root",	  "function", "consumer resumed", "bad"};
		return std::string(n[e >> 48]) + " " + std::to_string((e >> 24) & 0xffffff) + "/" + std::to_string(e & 0xffffff);
	}
	struct Trace {
		std::vector<int64_t> v;
		void log(int64_t e) { v.push_back(e); }
	};
	struct Local {
		Trace* t;
		int64_t e;
		Tracked c;
		Local(Trace* t, int64_t e) : t(t), e(e), c(e & 0xffffff) {}
		Local(const Local&) = delete;
		~Local() { t->log(e); }
	};
	struct Locals {
		std::vector<std::unique_ptr<Local>> v;
		~Locals() {
			while (!v.empty())
				v.pop_back();
		}
	};

	// ------------------------------------------------------------ model
	struct Model : Trace {
		std::vector<std::size_t> marks;
		int suspensions = 0, abandon_at = 0;
		int elements = 0, throws = 0, nested = 0;
		void suspension() {
			marks.push_back(v.size());
			if (++suspensions == abandon_at) throw Abandon{};
		}
	};
	using Yield = std::function<void(int64_t&)>;
	void model(Model& m, const Node& n, int64_t param, const Yield& yield) {
		Locals l;
		m.log(ev(E_START, n.id, param));
		int i = 0;
		for (auto& o : n.ops) {
			i++;
			int64_t val = n.id * 100 + i;
			switch (o.k) {
			case LOG: m.log(ev(E_LOG, n.id, i)); break;
			case LOCAL: l.v.push_back(std::make_unique<Local>(&m, ev(E_DTOR, n.id, i))); break;
			case YIELD_P:
				yield(val);
				m.log(ev(E_BACK, n.id, 0));
				break;
			case YIELD_L:
			case YIELD_M:
				yield(val);
				m.log(ev(E_BACK, n.id, val));
				break;
			case NESTED: {
				m.nested++;
				auto inner = [&](int64_t& v) {
					if (o.mode & 1) m.log(ev(E_LOG, n.id, i));
					yield(v);
				};
				if (o.guarded) {
					try {
						model(m, *o.child, val, inner);
					} catch (const Err& e) { m.log(ev(E_CAUGHT, n.id, e.id)); } catch (int e) {
						m.log(ev(E_CAUGHT_INT, n.id, e));
					}
				} else
					model(m, *o.child, val, inner);
				break;
			}
			case THROW: m.throws++; throw Err(val);
			case THROW_INT: m.throws++; throw (int)val;
			case SUSPEND:
			case HOP:
			case TASK:
				m.suspension();
				m.log(ev(E_RESUMED, n.id, i));
				break;
			case RETURN: m.log(ev(E_END, n.id, i)); return;
			}
		}
		m.log(ev(E_END, n.id));
	}
	// What the consumer does with one element
	template<typename T>
	void model_consume(Model& m, const Plan& p, std::size_t i, int64_t& v) {
		if ((int)i == p.stop_after) throw Abandon{};
		m.elements++;
		m.log(ev(E_GOT, i, v));
		switch (p.at(i)) {
		case C_TWICE: m.log(ev(E_GOT, i, v)); break;
		case C_ARROW: m.log(ev(E_GOT, i, v)); break;
		case C_MODIFY:
			if (!tr<T>::is_const) v += p.arg(i) + 1;
			break;
		case C_TAKE:
			if (!tr<T>::is_const && !tr<T>::is_int) v = moved_from;
			break;
		case C_SUSPEND:
		case C_HOP:
			m.suspension();
			m.log(ev(E_CONSUMER, i));
			break;
		default: break;
		}
	}

	// ------------------------------------------------------------ real things
	struct Ctx : Trace {
		std::coroutine_handle<> slot{};
		const void* addr = nullptr;
		std::vector<std::unique_ptr<QueueDispatcher>>* workers = nullptr;
	};
	struct hop {
		Ctx* c;
		int w;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> hd) {
			auto& ws = *c->workers;
			ws[w % ws.size()]->push([hd] { hd.resume(); });
		}
		void await_resume() {}
	};
	asyncpp::task<int64_t> sub(Ctx* c, int a, int64_t v) {
		if (c->workers)
			co_await hop{c, a};
		else
			co_await h::manual{&c->slot};
		co_return v;
	}
	template<typename T>
	void yielded(Ctx* c, const T& x) {
		c->addr = std::addressof(x);
	}
	// consumer side of one element
	template<typename T, typename It>
	void consume(Ctx* c, const Plan& p, std::size_t i, It& it) {
		auto&& v = *it;
		static_assert(!tr<T>::is_const || std::is_const_v<std::remove_reference_t<decltype(v)>>);
		if (c->addr) CHECK(std::addressof(v) == c->addr, "the element is not the object that was yielded");
		c->log(ev(E_GOT, i, get(v)));
		switch (p.at(i)) {
		case C_TWICE: c->log(ev(E_GOT, i, get(*it))); break;
		case C_ARROW:
			if constexpr (requires { it.operator->(); })
				c->log(ev(E_GOT, i, get(*it.operator->())));
			else
				c->log(ev(E_GOT, i, get(*it)));
			break;
		case C_MODIFY:
			if constexpr (!tr<T>::is_const) set(v, get(v) + p.arg(i) + 1);
			break;
		case C_TAKE:
			if constexpr (!tr<T>::is_const && !tr<T>::is_int) {
				int64_t before = get(v);
				auto mine = std::move(v);
				if (get(mine) != before) c->log(ev(E_BAD, i));
			}
			break;
		default: break;
		}
	}

#define YIELD_CASES(T)                                                                                                 \
	case LOG: c->log(ev(E_LOG, n->id, i)); break;                                                                      \
	case LOCAL: l.v.push_back(std::make_unique<Local>(c, ev(E_DTOR, n->id, i))); break;                                \
	case YIELD_P:                                                                                                      \
		c->addr = nullptr;                                                                                             \
		if constexpr (tr<T>::prvalue_ok) {                                                                             \
			co_yield typename tr<T>::V(val);                                                                           \
		} else {                                                                                                       \
			typename tr<T>::V x(val);                                                                                  \
			co_yield x;                                                                                                \
		}                                                                                                              \
		c->log(ev(E_BACK, n->id, 0));                                                                                  \
		break;                                                                                                         \
	case YIELD_L:                                                                                                      \
	case YIELD_M: {                                                                                                    \
		typename tr<T>::V x(val);                                                                                      \
		yielded(c, x);                                                                                                 \
		if constexpr (tr<T>::lvalue_ok && tr<T>::prvalue_ok) {                                                         \
			if (o.k == YIELD_L)                                                                                        \
				co_yield x;                                                                                            \
			else                                                                                                       \
				co_yield std::move(x);                                                                                 \
		} else if constexpr (tr<T>::lvalue_ok)                                                                         \
			co_yield x;                                                                                                \
		else                                                                                                           \
			co_yield std::move(x);                                                                                     \
		c->log(ev(E_BACK, n->id, get(x)));                                                                             \
		break;                                                                                                         \
	}                                                                                                                  \
	case THROW: throw Err(val);                                                                                        \
	case THROW_INT: throw (int)val;                                                                                    \
	case RETURN: c->log(ev(E_END, n->id, i)); co_return;

	template<typename T>
	generator<T> sbody(Ctx* c, const Node* n, Tracked param) {
		Locals l;
		c->log(ev(E_START, n->id, param.get()));
		int i = 0;
		for (auto& o : n->ops) {
			i++;
			int64_t val = n->id * 100 + i;
			switch (o.k) {
				YIELD_CASES(T)
			case NESTED:
				if (o.guarded) {
					try {
						for (auto&& v : sbody<T>(c, o.child.get(), Tracked(val))) {
							if (o.mode & 1) c->log(ev(E_LOG, n->id, i));
							co_yield static_cast<decltype(v)>(v);
						}
					} catch (const Err& e) { c->log(ev(E_CAUGHT, n->id, e.id)); } catch (int e) {
						c->log(ev(E_CAUGHT_INT, n->id, e));
					}
				} else {
					auto g = sbody<T>(c, o.child.get(), Tracked(val));
					auto g2 = std::move(g);
					for (auto it = g2.begin(); it != g2.end(); ++it) {
						if (o.mode & 1) c->log(ev(E_LOG, n->id, i));
						co_yield *it;
					}
				}
				break;
			default: break;
			}
		}
		c->log(ev(E_END, n->id));
		param.check();
	}
	template<typename T>
	async_generator<T> abody(Ctx* c, const Node* n, Tracked param) {
		Locals l;
		c->log(ev(E_START, n->id, param.get()));
		int i = 0;
		for (auto& o : n->ops) {
			i++;
			int64_t val = n->id * 100 + i;
			switch (o.k) {
				YIELD_CASES(T)
			case SUSPEND:
				co_await h::manual{&c->slot};
				c->log(ev(E_RESUMED, n->id, i));
				break;
			case HOP:
				co_await hop{c, o.a};
				c->log(ev(E_RESUMED, n->id, i));
				break;
			case TASK: c->log(ev(E_RESUMED, n->id, co_await sub(c, o.a, i))); break;
			case NESTED: {
				auto g = abody<T>(c, o.child.get(), Tracked(val));
				if (o.guarded) {
					try {
						for (auto it = co_await g.begin(); it != g.end(); co_await ++it) {
							if (o.mode & 1) c->log(ev(E_LOG, n->id, i));
							if constexpr (tr<T>::lvalue_ok)
								co_yield *it;
							else
								co_yield std::move(*it);
						}
					} catch (const Err& e) { c->log(ev(E_CAUGHT, n->id, e.id)); } catch (int e) {
						c->log(ev(E_CAUGHT_INT, n->id, e));
					}
				} else {
					async_generator<T> g2;
					g2 = std::move(g);
					auto it = co_await g2.begin();
					while (!(it == g2.end())) {
						if (o.mode & 1) c->log(ev(E_LOG, n->id, i));
						if constexpr (tr<T>::lvalue_ok)
							co_yield *it;
						else
							co_yield std::move(*it);
						auto& r = co_await ++it;
						if (&r != &it) c->log(ev(E_BAD, 1));
					}
				}
				break;
			}
			}
		}
		c->log(ev(E_END, n->id));
		param.check();
	}

	struct Gen {
		int next = 1, budget, workers;
		bool async;
		std::unique_ptr<Node> node(int depth) {
			auto n = std::make_unique<Node>();
			n->id = next++;
			int ops = vrt::size(0, 7);
			for (int i = 0; i < ops && budget > 0; i++) {
				budget--;
				// LOG, LOCAL, YIELD_L, YIELD_P, YIELD_M, NESTED, THROW, THROW_INT, SUSPEND, HOP, TASK, RETURN
				int w[] = {1, 3, 5, 4, 2, depth < 4 ? 4 : 0, 1, 1, 0, 0, 0, 1};
				if (async && workers) w[HOP] = 4, w[SUSPEND] = 1, w[TASK] = 2;
				if (async && !workers) w[SUSPEND] = 4, w[TASK] = 2;
				int x = vrt::choose(std::accumulate(std::begin(w), std::end(w), 0)), k = 0;
				while (x >= w[k])
					x -= w[k++];
				Op o;
				o.k = (OK)k;
				if (workers && (o.k == HOP || o.k == TASK)) o.a = vrt::choose(workers);
				if (o.k == NESTED) {
					o.mode = vrt::choose(2);
					o.guarded = vrt::flip();
					o.child = node(depth + 1);
				}
				n->ops.push_back(std::move(o));
				if (k == THROW || k == THROW_INT || k == RETURN) break;
			}
			return n;
		}
		Plan plan() {
			Plan p;
			int n = vrt::choose(4);
			for (int i = 0; i < n; i++) {
				CA a = (CA)vrt::choose(async ? (workers ? C_COUNT : C_HOP) : C_SUSPEND);
				p.acts.push_back({a, a == C_HOP ? (int)vrt::choose(workers) : (int)vrt::choose(3)});
			}
			return p;
		}
	};
	void dump(const Node& n, int d = 0) {
		static const char* nm[] = {"log",	"local", "yield lvalue", "yield prvalue", "yield move", "nested",
								   "throw", "throw int", "suspend",		"hop",			 "task",	   "return"};
		vrt::note("%*sbody %d", d * 2, "", n.id);
		for (auto& o : n.ops) {
			vrt::note("%*s  %s a=%d mode=%d%s", d * 2, "", nm[o.k], o.a, o.mode, o.guarded ? " guarded" : "");
			if (o.child) dump(*o.child, d + 1);
		}
	}
	void dump(const Plan& p) {
		static const char* nm[] = {"read", "read twice", "modify", "take", "move generator", "arrow", "suspend", "hop"};
		for (auto& a : p.acts)
			vrt::note("consumer: %s %d", nm[a.first], a.second);
		vrt::note("consumer stops after %d", p.stop_after);
	}
	void compare(const Ctx& c, const Model& m, std::size_t upto, const char* when) {
		for (std::size_t i = 0; i < std::max(c.v.size(), upto); i++) {
			if (i < c.v.size() && i < upto && c.v[i] == m.v[i]) continue;
			vrt::fail("%s: step %zu is '%s', expected '%s'", when, i, i < c.v.size() ? show(c.v[i]).c_str() : "(nothing)",
					  i < upto ? show(m.v[i]).c_str() : "(nothing)");
		}
	}
	void classify(const Model& m) {
		if (m.elements >= 2) vrt::nontrivial();
		if (m.nested) vrt::label("nested generators");
		if (m.throws) vrt::label("an exception left a body");
	}

	// ------------------------------------------------------------ synchronous
	enum { PLAIN, MAPPED_VALUE, MAPPED_REF, MAPPED_INT };
	template<typename T>
	void model_sync(Model& m, const Node& n, const Plan& p, int how, int throw_at) {
		std::size_t i = 0;
		int calls = 0;
		try {
			model(m, n, 3, [&](int64_t& v) {
				if (how == PLAIN) {
					auto at = m.v.size();
					m.marks.push_back(at);
					model_consume<T>(m, p, i++, v);
					return;
				}
				m.log(ev(E_FUNC, v));
				if (++calls == throw_at) {
					// the source stays suspended until the mapped generator is destroyed
					m.throws++;
					m.log(ev(E_ROOT, 2, 999));
					throw Abandoned{};
				}
				if (how == MAPPED_REF) {
					m.marks.push_back(m.v.size());
					model_consume<T>(m, p, i++, v);
				} else if (how == MAPPED_VALUE) {
					int64_t r = v + 7;
					m.marks.push_back(m.v.size());
					model_consume<Tracked>(m, p, i++, r);
				} else {
					int64_t r = v + 9;
					m.marks.push_back(m.v.size());
					model_consume<int64_t>(m, p, i++, r);
				}
			});
			m.log(ev(E_ROOT, 1));
		} catch (const Err& e) { m.log(ev(E_ROOT, 2, e.id)); } catch (int e) {
			m.log(ev(E_ROOT, 3, e));
		} catch (const Abandon&) { m.log(ev(E_ROOT, 4)); } catch (const Abandoned&) {
		}
	}
	template<typename T, typename G>
	void iterate(Ctx& c, const Model& m, const Plan& p, G g) {
		std::size_t i = 0;
		CHECK(c.v.empty(), "the body ran before it was asked for an element");
		std::optional<decltype(g.begin())> it;
		std::list<G> gens;
		gens.push_back(std::move(g));
		bool moved_up = p.arg(0) == 1;
		if (moved_up) {
			G other = std::move(gens.back());
			auto& o = other;
			other = std::move(o);
			gens.emplace_back();
			gens.back() = std::move(other);
			CHECK(c.v.empty(), "the body ran before it was asked for an element");
		}
		try {
			it.emplace(gens.back().begin());
			while (true) {
				bool e = *it == gens.back().end();
				CHECK(e == (gens.back().end() == *it) && e != (*it != gens.back().end()) && e != (gens.back().end() != *it),
					  "comparisons with end disagree");
				if (e) break;
				CHECK(i < m.marks.size(), "more elements than the body yields");
				compare(c, m, m.marks[i], "running to an element");
				if ((int)i == p.stop_after) break;
				consume<T>(&c, p, i, *it);
				if (p.at(i) == C_MOVE_GEN) {
					gens.emplace_back(std::move(gens.back()));
					if (p.arg(i) == 1) {
						G fresh;
						CHECK(fresh.begin() == fresh.end(), "an empty generator is not at its end");
						fresh = std::move(gens.back());
						gens.back() = std::move(fresh);
					}
				}
				if (p.arg(i) == 2 && i % 2)
					(*it)++;
				else
					CHECK(&++*it == &*it);
				i++;
			}
			if ((int)i == p.stop_after && i < m.marks.size()) {
				while (!gens.empty())
					gens.pop_front();
				c.log(ev(E_ROOT, 4));
			} else
				c.log(ev(E_ROOT, 1));
		} catch (const Err& e) {
			c.log(ev(E_ROOT, 2, e.id));
			if (it) CHECK(*it == gens.back().end(), "not at the end after an exception");
		} catch (int e) {
			c.log(ev(E_ROOT, 3, e));
			if (it) CHECK(*it == gens.back().end(), "not at the end after an exception");
		}
		while (!gens.empty())
			gens.pop_front();
		compare(c, m, m.v.size(), "at the end");
	}
	template<typename T>
	void sync() {
		Gen g{1, 22, 0, false};
		auto n = g.node(0);
		auto p = g.plan();
		int how = vrt::chance(1, 3) ? 1 + vrt::choose(3) : PLAIN, throw_at = 0;
		if (std::is_rvalue_reference_v<T>) how = PLAIN;
		{
			Model probe;
			model_sync<T>(probe, *n, p, how, 0);
			if (vrt::chance(2, 5)) p.stop_after = vrt::choose(probe.elements + 1);
			if (how != PLAIN && probe.elements && vrt::chance(1, 4)) throw_at = 1 + vrt::choose(probe.elements);
		}
		dump(*n);
		dump(p);
		vrt::note("mapping %d, function throws at %d", how, throw_at);
		Model m;
		model_sync<T>(m, *n, p, how, throw_at);
		classify(m);
		if (p.stop_after >= 0) vrt::label("dropped early");
		Ctx c;
		if (how == PLAIN) return iterate<T>(c, m, p, sbody<T>(&c, n.get(), Tracked(3)));
		vrt::label("fmap");
		if constexpr (!std::is_rvalue_reference_v<T>) {
			using Ref = typename generator<T>::iterator::reference;
			int calls = 0;
			Tracked state(5);
			auto pre = [&calls, &c, throw_at, state](int64_t v) mutable {
				state.check();
				c.log(ev(E_FUNC, v));
				if (++calls == throw_at) throw Err(999);
			};
			if (how == MAPPED_VALUE) {
				auto f = [pre](Ref v) mutable {
					pre(get(v));
					return Tracked(get(v) + 7);
				};
				auto f2 = [f, &c](Ref v) mutable {
					auto r = f(static_cast<Ref>(v));
					c.addr = nullptr;
					return r;
				};
				auto mg = asyncpp::fmap(f2, sbody<T>(&c, n.get(), Tracked(3)));
				static_assert(std::is_same_v<decltype(mg), generator<Tracked>>);
				iterate<Tracked>(c, m, p, std::move(mg));
			} else if (how == MAPPED_INT) {
				auto f = [pre, &c](Ref v) mutable -> int64_t {
					pre(get(v));
					c.addr = nullptr;
					return get(v) + 9;
				};
				auto mg = asyncpp::fmap(f, sbody<T>(&c, n.get(), Tracked(3)));
				static_assert(std::is_same_v<decltype(mg), generator<int64_t>>);
				iterate<int64_t>(c, m, p, std::move(mg));
			} else {
				auto f = [pre](Ref v) mutable -> Ref {
					pre(get(v));
					return static_cast<Ref>(v);
				};
				auto mg = asyncpp::fmap(f, sbody<T>(&c, n.get(), Tracked(3)));
				static_assert(std::is_same_v<decltype(mg), generator<Ref>>);
				iterate<T>(c, m, p, std::move(mg));
			}
		}
	}

	// ------------------------------------------------------------ asynchronous
	struct rootco {
		struct promise_type {
			rootco get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_always initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { vrt::fail("unexpected exception"); }
		};
		std::coroutine_handle<promise_type> hd;
	};
	template<typename T>
	void model_async(Model& m, const Node& n, const Plan& p) {
		std::size_t i = 0;
		struct Stop {};
		try {
			model(m, n, 3, [&](int64_t& v) {
				if ((int)i == p.stop_after) throw Stop{};
				model_consume<T>(m, p, i++, v);
			});
			m.log(ev(E_ROOT, 1));
		} catch (const Err& e) { m.log(ev(E_ROOT, 2, e.id)); } catch (int e) {
			m.log(ev(E_ROOT, 3, e));
		} catch (const Stop&) { m.log(ev(E_ROOT, 4)); } catch (const Abandon&) {
		}
	}
	template<typename It>
	asyncpp::task<void> advance(Ctx* c, It& it) {
		auto& r = co_await ++it;
		if (&r != &it) c->log(ev(E_BAD, 1));
	}
	template<typename T>
	asyncpp::task<typename async_generator<T>::iterator> first(async_generator<T>& g) {
		co_return co_await g.begin();
	}
	template<typename T>
	rootco async_root(Ctx* c, const Node* n, const Plan* p) {
		bool stopped = false;
		{
			async_generator<T> g;
			auto none = co_await g.begin();
			if (!(none == g.end())) c->log(ev(E_BAD, 2));
			g = abody<T>(c, n, Tracked(3));
			if (p->arg(0) == 1) {
				auto other = std::move(g);
				auto& o = other;
				other = std::move(o);
				swap(g, other);
			}
			std::optional<async_generator<T>> g2;
			std::size_t i = 0;
			auto it = none;
			try {
				if (p->arg(1) % 3 == 1)
					it = co_await first<T>(g);
				else
					it = co_await g.begin();
				while (it != g.end()) {
					if ((int)i == p->stop_after) {
						stopped = true;
						break;
					}
					consume<T>(c, *p, i, it);
					if (p->at(i) == C_MOVE_GEN) {
						if (!g2)
							g2.emplace(std::move(g));
						else {
							auto t = std::move(*g2);
							*g2 = std::move(t);
						}
					}
					if (p->at(i) == C_SUSPEND) {
						co_await h::manual{&c->slot};
						c->log(ev(E_CONSUMER, i));
					}
					if (p->at(i) == C_HOP) {
						co_await hop{c, p->arg(i)};
						c->log(ev(E_CONSUMER, i));
					}
					i++;
					// the coroutine awaiting the next element need not be the one that got the first
					if (p->arg(i - 1) % 3 == 1)
						co_await advance(c, it);
					else {
						auto& r = co_await ++it;
						if (&r != &it) c->log(ev(E_BAD, 1));
					}
				}
				if (!stopped) c->log(ev(E_ROOT, 1));
			} catch (const Err& e) {
				c->log(ev(E_ROOT, 2, e.id));
				if (i && it != g.end()) c->log(ev(E_BAD, 3));
			} catch (int e) {
				c->log(ev(E_ROOT, 3, e));
				if (i && it != g.end()) c->log(ev(E_BAD, 3));
			}
		}
		if (stopped) c->log(ev(E_ROOT, 4));
	}
	template<typename T>
	void async_seq() {
		Gen g{1, 22, 0, true};
		auto n = g.node(0);
		auto p = g.plan();
		Model m;
		{
			Model probe;
			model_async<T>(probe, *n, p);
			if (vrt::chance(1, 3)) p.stop_after = vrt::choose(probe.elements + 1);
			if (probe.suspensions && vrt::chance(1, 3)) m.abandon_at = 1 + vrt::choose(probe.suspensions);
		}
		dump(*n);
		dump(p);
		model_async<T>(m, *n, p);
		if (m.suspensions < m.abandon_at) m.abandon_at = 0;
		classify(m);
		if (p.stop_after >= 0) vrt::label("dropped early");
		if (m.abandon_at) vrt::label("destroyed while suspended");
		Ctx c;
		auto r = async_root<T>(&c, n.get(), &p);
		auto step = std::coroutine_handle<>(r.hd);
		for (int i = 0;; i++) {
			step.resume();
			if (i == (int)m.marks.size()) break;
			CHECK(!r.hd.done() && c.slot, "finished although suspension %d is pending", i + 1);
			compare(c, m, m.marks[i], "while suspended");
			if (i + 1 == m.abandon_at) break;
			step = std::exchange(c.slot, {});
		}
		if (m.abandon_at) {
			r.hd.destroy();
			compare(c, m, m.v.size(), "after destruction");
		} else {
			CHECK(r.hd.done() && !c.slot, "a step is missing at the end");
			compare(c, m, m.v.size(), "at the end");
			r.hd.destroy();
			compare(c, m, m.v.size(), "after the end");
		}
	}
	template<typename T>
	void async_threads() {
		int nw = vrt::range(1, 3), nr = vrt::range(1, 3);
		std::vector<std::unique_ptr<QueueDispatcher>> ws;
		for (int i = 0; i < nw; i++) {
			ws.push_back(std::make_unique<QueueDispatcher>(i));
			ws.back()->start();
		}
		struct Run {
			std::unique_ptr<Node> n;
			Plan p;
			Model m;
			Ctx c;
			rootco r;
		};
		std::vector<std::unique_ptr<Run>> rs;
		for (int i = 0; i < nr; i++) {
			Gen g{1, 12, nw, true};
			auto x = std::make_unique<Run>();
			x->n = g.node(0);
			x->p = g.plan();
			if (vrt::chance(1, 4)) x->p.stop_after = vrt::choose(4);
			dump(*x->n);
			dump(x->p);
			model_async<T>(x->m, *x->n, x->p);
			classify(x->m);
			x->c.workers = &ws;
			x->r = async_root<T>(&x->c, x->n.get(), &x->p);
			rs.push_back(std::move(x));
		}
		for (auto& x : rs) {
			if (vrt::flip())
				ws[vrt::choose(nw)]->push([hd = x->r.hd] { hd.resume(); });
			else
				x->r.hd.resume();
		}
		while (true) {
			vrt::wait_idle();
			bool again = false;
			for (auto& w : ws)
				(void)w->pending();
			for (auto& x : rs) {
				if (!x->r.hd) continue;
				if (x->r.hd.done()) {
					compare(x->c, x->m, x->m.v.size(), "at the end");
					x->r.hd.destroy();
					x->r.hd = nullptr;
				} else {
					CHECK((bool)x->c.slot, "a coroutine is stuck");
					bool on_a_mark = std::find(x->m.marks.begin(), x->m.marks.end(), x->c.v.size()) != x->m.marks.end();
					CHECK(on_a_mark, "suspended at an unexpected place");
					compare(x->c, x->m, x->c.v.size(), "while suspended");
					auto hd = std::exchange(x->c.slot, {});
					again = true;
					if (vrt::chance(1, 6)) {
						vrt::label("destroyed while suspended");
						auto rh = std::exchange(x->r.hd, {});
						ws[vrt::choose(nw)]->push([rh] { rh.destroy(); });
						continue;
					}
					ws[vrt::choose(nw)]->push([hd] { hd.resume(); });
				}
			}
			if (!again) break;
		}
		for (auto& w : ws)
			w->stop();
		for (auto& x : rs)
			CHECK(!x->r.hd);
	}

	// ------------------------------------------------------------ long sequences
	struct Meter {
		uintptr_t lo = UINTPTR_MAX, hi = 0;
		__attribute__((noinline)) void here() {
			auto p = (uintptr_t)__builtin_frame_address(0);
			lo = std::min(lo, p);
			hi = std::max(hi, p);
		}
	};
	async_generator<int> along(Meter* m, int n) {
		for (int i = 0; i < n; i++) {
			m->here();
			co_yield i;
		}
	}
	generator<int> slong(Meter* m, int n) {
		for (int i = 0; i < n; i++) {
			m->here();
			co_yield i;
		}
	}
	rootco long_root(Meter* m, int n, int* count) {
		auto g = along(m, n);
		for (auto it = co_await g.begin(); it != g.end(); co_await ++it) {
			m->here();
			if (*it == *count) ++*count;
		}
	}
	void long_sequence() {
		int n = vrt::range(1, 30) * 100, count = 0;
		Meter m;
		if (vrt::flip()) {
			auto r = long_root(&m, n, &count);
			r.hd.resume();
			CHECK(r.hd.done());
			r.hd.destroy();
		} else {
			for (auto& v : slong(&m, n)) {
				m.here();
				if (v == count) ++count;
			}
		}
		CHECK(count == n, "%d of %d elements arrived", count, n);
		CHECK(m.hi - m.lo < 8192, "%zu bytes of stack used for %d elements", (std::size_t)(m.hi - m.lo), n);
		if (n >= 500) vrt::nontrivial();
	}
} // namespace

SCENARIO(sync_int, 10, vrt::NO_TSAN) { sync<int64_t>(); }
SCENARIO(sync_tracked, 20, vrt::NO_TSAN) { sync<Tracked>(); }
SCENARIO(sync_const, 10, vrt::NO_TSAN) { sync<const Tracked>(); }
SCENARIO(sync_lvalue_reference, 20, vrt::NO_TSAN) { sync<Tracked&>(); }
SCENARIO(sync_const_reference, 10, vrt::NO_TSAN) { sync<const Tracked&>(); }
SCENARIO(sync_rvalue_reference, 10, vrt::NO_TSAN) { sync<Tracked&&>(); }
SCENARIO(sync_moveonly, 10, vrt::NO_TSAN) { sync<MoveOnly>(); }
SCENARIO(async_int, 10, vrt::NO_TSAN) { async_seq<int64_t>(); }
SCENARIO(async_tracked, 20, vrt::NO_TSAN) { async_seq<Tracked>(); }
SCENARIO(async_const, 10, vrt::NO_TSAN) { async_seq<const Tracked>(); }
SCENARIO(async_lvalue_reference, 20, vrt::NO_TSAN) { async_seq<Tracked&>(); }
SCENARIO(async_const_reference, 10, vrt::NO_TSAN) { async_seq<const Tracked&>(); }
SCENARIO(async_rvalue_reference, 10, vrt::NO_TSAN) { async_seq<Tracked&&>(); }
SCENARIO(async_moveonly, 10, vrt::NO_TSAN) { async_seq<MoveOnly>(); }
SCENARIO(async_cross_thread, 60) { async_threads<Tracked>(); }
SCENARIO(async_cross_thread_ref, 20) { async_threads<Tracked&>(); }
SCENARIO(long_sequences, 2, vrt::NO_TSAN) { long_sequence(); }
