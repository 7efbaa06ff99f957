// C13: bundled stop_source / stop_token / stop_callback
#include "../lib/vrt_shim.h"
#include <stop_token>
#include <asyncpp/stop_token.h>
#include "../lib/helpers.h"

namespace {
	struct Ours {
		using source = asyncpp::stop_source;
		using token = asyncpp::stop_token;
		template<typename F>
		using callback = asyncpp::stop_callback<F>;
		static source empty() { return source(asyncpp::nostopstate); }
		static void move_assign(source& a, source&& b) { a = std::move(b); }
	};
	// The reference. Its purpose here is to show that the model accepts the standard's behaviour.
	struct Std {
		using source = std::stop_source;
		using token = std::stop_token;
		template<typename F>
		using callback = std::stop_callback<F>;
		static source empty() { return source(std::nostopstate); }
		static void move_assign(source& a, source&& b) { source(std::move(b)).swap(a); } // libstdc++ 13 leaks a count here
	};
	struct MState {
		int sources = 0;
		bool requested = false;
		std::set<int> callbacks; // registered, not yet invoked
	};
	using MS = std::shared_ptr<MState>;
	struct Act {
		int k, a, b;
	};

	template<typename T>
	struct Seq {
		struct Fn {
			Seq* s;
			int id;
			h::Tracked cookie;
			Fn(Seq* s, int id) : s(s), id(id), cookie(id) {}
			void operator()() { s->invoked(id, cookie); }
		};
		using CB = typename T::template callback<Fn>;
		struct Src {
			std::optional<typename T::source> s;
			MS m;
		};
		struct Tok {
			std::optional<typename T::token> t;
			MS m;
		};
		struct Cb {
			std::unique_ptr<CB> cb;
			MS m;
			int invoked = 0;
			bool registered = false, constructing = false, running = false;
		};
		Src src[3];
		Tok tok[3];
		std::vector<std::unique_ptr<Cb>> cbs;
		std::vector<std::vector<Act>> inside;
		int budget = 0, depth = 0, reentrant = 0;
		MS requesting; // innermost state being stopped

		void drop(Src& s) {
			if (s.m) s.m->sources--;
			s.m = nullptr;
		}
		void invoked(int id, h::Tracked& cookie) {
			auto& c = *cbs[id];
			cookie.check();
			vrt::note("callback %d", id);
			CHECK(++c.invoked == 1, "callback %d was invoked twice", id);
			if (c.constructing)
				CHECK(c.m && c.m->requested, "callback %d was invoked on registration without a stop request", id);
			else {
				CHECK(c.m && c.m->callbacks.count(id), "callback %d was invoked although it is not registered", id);
				CHECK(c.m == requesting, "callback %d was invoked although its state is not being stopped", id);
				c.m->callbacks.erase(id);
			}
			c.running = true;
			depth++;
			if (id < (int)inside.size() && depth < 4)
				for (auto& a : inside[id]) {
					reentrant++;
					step(a, id);
				}
			depth--;
			cbs[id]->running = false;
		}
		void check(int i) {
			auto& s = src[i];
			if (s.s) {
				CHECK(s.s->stop_possible() == (bool)s.m, "source %d: stop_possible is %d", i, (int)s.s->stop_possible());
				CHECK(s.s->stop_requested() == (s.m && s.m->requested), "source %d: stop_requested is %d", i, (int)s.s->stop_requested());
			}
			auto& t = tok[i];
			if (t.t) {
				CHECK(t.t->stop_requested() == (t.m && t.m->requested), "token %d: stop_requested is %d", i, (int)t.t->stop_requested());
				bool possible = t.m && (t.m->requested || t.m->sources > 0);
				CHECK(t.t->stop_possible() == possible, "token %d: stop_possible is %d with %d sources", i, (int)t.t->stop_possible(), t.m ? t.m->sources : -1);
			}
		}
		void step(const Act& x, int self) {
			if (budget-- <= 0) return;
			auto& s = src[x.a % 3];
			auto& s2 = src[x.b % 3];
			auto& t = tok[x.a % 3];
			auto& t2 = tok[x.b % 3];
			switch (x.k) {
			case 0:
				vrt::note("new source %d", x.a % 3);
				drop(s);
				s.s.emplace();
				s.m = std::make_shared<MState>();
				s.m->sources = 1;
				break;
			case 1:
				vrt::note("source %d without state", x.a % 3);
				drop(s);
				s.s.emplace(T::empty());
				break;
			case 2: {
				if (!s2.s) break;
				vrt::note("source %d = copy of %d", x.a % 3, x.b % 3);
				MS m = s2.m;
				if (m) m->sources++;
				drop(s);
				s.m = m;
				if (s.s)
					*s.s = *s2.s;
				else
					s.s.emplace(*s2.s);
				CHECK(*s.s == *s2.s, "a copy compares different");
				break;
			}
			case 3: {
				if (!s2.s || &s == &s2) break;
				vrt::note("source %d = move of %d", x.a % 3, x.b % 3);
				drop(s);
				s.m = std::move(s2.m);
				if (s.s)
					T::move_assign(*s.s, std::move(*s2.s));
				else
					s.s.emplace(std::move(*s2.s));
				s2.m = nullptr;
				CHECK(!s2.s->stop_possible(), "moved-from source still has a state");
				break;
			}
			case 4: {
				if (!s.s || !s2.s) break;
				vrt::note("swap sources %d %d", x.a % 3, x.b % 3);
				if (x.b & 4)
					s.s->swap(*s2.s);
				else
					swap(*s.s, *s2.s);
				std::swap(s.m, s2.m);
				break;
			}
			case 5:
				vrt::note("destroy source %d", x.a % 3);
				drop(s);
				s.s.reset();
				break;
			case 6:
			case 7: {
				if (!s.s) break;
				vrt::note("token %d from source %d", x.b % 3, x.a % 3);
				t2.t = s.s->get_token();
				t2.m = s.m;
				break;
			}
			case 8: {
				if (!t2.t) {
					t.t.emplace();
					t.m = nullptr;
					break;
				}
				vrt::note("token %d = %s %d", x.a % 3, x.b & 4 ? "move of" : "copy of", x.b % 3);
				MS m = t2.m;
				if (x.b & 4) {
					if (&t == &t2) break;
					t.t = std::move(t2.t);
					CHECK(!t2.t->stop_possible() && !t2.t->stop_requested());
					t2.m = nullptr;
				} else
					t.t = t2.t;
				t.m = m;
				break;
			}
			case 9: {
				if (!t.t || !t2.t) break;
				vrt::note("swap tokens");
				if (x.b & 4)
					t.t->swap(*t2.t);
				else
					swap(*t.t, *t2.t);
				std::swap(t.m, t2.m);
				break;
			}
			case 10:
				t.t.reset();
				t.m = nullptr;
				break;
			case 11: {
				if (s.s && s2.s) CHECK((*s.s == *s2.s) == (s.m == s2.m), "sources %d and %d compare wrong", x.a % 3, x.b % 3);
				if (t.t && t2.t) {
					CHECK((*t.t == *t2.t) == (t.m == t2.m), "tokens compare wrong");
					CHECK((*t.t != *t2.t) == (t.m != t2.m), "tokens compare wrong");
				}
				break;
			}
			case 12:
			case 13: {
				if (!s.s) break;
				bool expect = s.m && !s.m->requested;
				MS m = s.m; // the source may be replaced by a callback
				vrt::note("request_stop %d", x.a % 3);
				MS old = requesting;
				if (expect) {
					m->requested = true;
					requesting = m;
				}
				// the state is stopped through a source of its own: callbacks may overwrite src[]
				auto keep = *s.s;
				if (m) m->sources++;
				bool r = keep.request_stop();
				if (m) m->sources--;
				requesting = old;
				CHECK(r == expect, "request_stop returned %d", (int)r);
				if (expect) CHECK(m->callbacks.empty(), "callback %d was not invoked", *m->callbacks.begin());
				break;
			}
			case 14:
			case 15:
			case 16: {
				if (!t.t) break;
				int id = (int)cbs.size();
				vrt::note("callback %d on token %d", id, x.a % 3);
				cbs.push_back(std::make_unique<Cb>());
				cbs[id]->m = t.m;
				cbs[id]->constructing = true;
				MS m = t.m;
				bool now = m && m->requested;
				bool can = m && !now && m->sources > 0;
				if (can) m->callbacks.insert(id), cbs[id]->registered = true, cbs[id]->constructing = false;
				std::unique_ptr<CB> cb;
				if (x.b & 4) {
					auto copy = *t.t;
					cb = std::make_unique<CB>(std::move(copy), Fn(this, id));
				} else
					cb = std::make_unique<CB>(*t.t, Fn(this, id));
				cbs[id]->cb = std::move(cb);
				cbs[id]->constructing = false;
				CHECK(cbs[id]->invoked == (now ? 1 : 0), "callback %d was invoked %d times by its registration", id, cbs[id]->invoked);
				break;
			}
			case 17:
			case 18: {
				if (cbs.empty()) break;
				int id = x.k == 18 && self >= 0 ? self : (x.a * 3 + x.b) % (int)cbs.size();
				auto& c = *cbs[id];
				if (!c.cb || (c.running && id != self)) break;
				vrt::note("destroy callback %d%s", id, id == self ? " (itself)" : "");
				if (c.m) c.m->callbacks.erase(id);
				c.cb.reset();
				break;
			}
			}
			for (int i = 0; i < 3; i++)
				check(i);
		}
		void run() {
			int n = vrt::chance(1, 4) ? (int)vrt::range(30, 80) : (int)vrt::range(3, 30);
			budget = n + 26;
			int ni = (int)vrt::choose(8);
			auto gen = [] { return Act{(int)vrt::choose(19), (int)vrt::choose(3), (int)vrt::choose(6)}; };
			for (int i = 0; i < ni; i++) {
				inside.emplace_back();
				int k = (int)vrt::choose(3);
				for (int j = 0; j < k; j++)
					inside.back().push_back(gen());
			}
			// Often start with sources and tokens in place, some without a state
			if (vrt::flip())
				for (int i = 0; i < 3; i++) {
					step({vrt::chance(1, 4) ? 1 : 0, i, 0}, -1);
					step({6, (int)vrt::choose(3), i}, -1);
				}
			for (int i = 0; i < n; i++)
				step(gen(), -1);
			int fired = 0;
			for (auto& c : cbs)
				fired += c->invoked;
			for (std::size_t i = 0; i < cbs.size(); i++)
				if (cbs[i]->cb) {
					if (cbs[i]->m) cbs[i]->m->callbacks.erase((int)i);
					cbs[i]->cb.reset();
				}
			for (int i = 0; i < 3; i++)
				check(i);
			if (fired && cbs.size() > 1) vrt::nontrivial();
			if (reentrant) vrt::label("callbacks used the facility");
		}
	};

	// ---------------------------------------------------------------- concurrent
	constexpr uint64_t never = UINT64_MAX;
	struct CCb {
		int invoked = 0, thread = -1, reg_thread = -1, destroyed = 0;
		bool running = false, in_ctor = false;
		uint64_t reg_b = never, reg_e = never, dereg_b = never, dereg_e = never, inv = never;
		int64_t effect = 0; // plain: written by the callback, read by who deregisters it
		bool possible = true;
	};
	struct CW {
		uint64_t clock = 0;
		std::vector<std::unique_ptr<CCb>> cbs;
		uint64_t stop_b = never, stop_e = never; // winning request
		int winner = -1, wins = 0, overlap = 0;
		bool one_requester = false;
		int64_t published = 0; // plain: written before the only thread that requests stop does so
		void see(const char* where) {
			if (one_requester) CHECK(published == 42, "what was written before the stop request is not visible %s", where);
		}
	};
	CW* G;
	struct CFn {
		int id;
		std::unique_ptr<int64_t> payload;
		std::function<void()> extra;
		CFn(int i, std::function<void()> e) : id(i), payload(std::make_unique<int64_t>(i * 11)), extra(std::move(e)) {}
		void operator()() {
			CHECK(*payload == id * 11, "captured state is not visible to the callback");
			G->see("in a callback");
			auto& c = *h::quiet([&] {
				auto& c = *G->cbs[id];
				vrt::note("callback %d runs", id);
				if (++c.invoked != 1) vrt::fail("callback %d invoked twice", id);
				if (c.dereg_e != never) vrt::fail("callback %d invoked after its deregistration returned", id);
				c.inv = ++G->clock;
				c.thread = vrt::self();
				c.running = true;
				return &c;
			});
			vrt::point();
			c.effect = id + 1;
			vrt::point();
			auto f = std::move(extra);
			int me = id;
			if (f) f(); // may destroy *this
			h::quiet([&] { G->cbs[me]->running = false; });
		}
	};
	using CB = asyncpp::stop_callback<CFn>;
} // namespace
SCENARIO(sequential, 200, vrt::NO_TSAN) { Seq<Ours>().run(); }
SCENARIO(standard_satisfies_the_model, 50, vrt::NO_TSAN) { Seq<Std>().run(); }
SCENARIO(concurrent, 350) {
	CW w;
	G = &w;
	struct S {
		int k, x;
	};
	int nt = (int)vrt::range(2, 4);
	std::vector<std::vector<S>> prog(nt);
	for (auto& p : prog) {
		int n = (int)vrt::range(1, 6);
		for (int i = 0; i < n; i++)
			p.push_back({(int)vrt::choose(12), (int)vrt::choose(8)});
	}
	bool keep_source = vrt::flip();
	int requester = vrt::chance(1, 2) ? (int)vrt::choose(nt) : -1;
	w.one_requester = requester >= 0;
	auto tick = [&] { return h::quiet([&] { return ++w.clock; }); };
	std::atomic<int> live_sources{0}; // lower bound bookkeeping is done in quiet mode
	int sources = 0;
	uint64_t no_source_since = never;
	auto src_add = [&] { h::quiet([&] { sources++; }); };
	auto src_del = [&] { // called after the source is gone
		h::quiet([&] {
			if (--sources == 0) no_source_since = ++w.clock;
		});
	};
	{
		std::optional<asyncpp::stop_source> root;
		root.emplace();
		src_add();
		std::vector<std::vthread> ts;
		std::optional<asyncpp::stop_token> tok0{root->get_token()};
		for (int t = 0; t < nt; t++) {
			src_add();
			ts.emplace_back([&, t, src = std::optional<asyncpp::stop_source>(*root), tok = *tok0]() mutable {
				std::vector<std::pair<std::shared_ptr<std::unique_ptr<CB>>, int>> mine;
				std::optional<asyncpp::stop_source> extra_src;
				auto dereg = [&](std::size_t i) {
					auto [p, id] = mine[i];
					auto& c = *h::quiet([&] { return w.cbs[id].get(); });
					if (!*p) {
						mine.erase(mine.begin() + i);
						return;
					}
					h::quiet([&] { c.dereg_b = ++w.clock; });
					vrt::note("T%d deregisters %d", t, id);
					p->reset();
					vrt::note("T%d deregistered %d", t, id);
					bool inv = h::quiet([&] {
						c.dereg_e = ++w.clock;
						if (c.running && c.thread != vrt::self()) vrt::fail("deregistration of %d returned while it runs on another thread", id);
						return c.invoked > 0;
					});
					if (inv) CHECK(c.effect == id + 1, "effects of the callback are not visible after its deregistration");
					mine.erase(mine.begin() + i);
				};
				auto reg = [&](int x) {
					int id = h::quiet([&] {
						w.cbs.push_back(std::make_unique<CCb>());
						w.cbs.back()->reg_thread = vrt::self();
						return (int)w.cbs.size() - 1;
					});
					auto& c = *h::quiet([&] { return w.cbs[id].get(); });
					auto cell = std::make_shared<std::unique_ptr<CB>>();
					std::function<void()> ex;
					if (x == 5)
						ex = [&, id, cellp = std::weak_ptr<std::unique_ptr<CB>>(cell)] { // deregisters itself, only when it is complete
							(void)id;
							vrt::yield_point();
						};
					h::quiet([&] {
						c.reg_b = ++w.clock;
						c.in_ctor = true;
						vrt::note("T%d registers %d", t, id);
					});
					if (x & 1)
						*cell = std::make_unique<CB>(tok, CFn(id, ex));
					else
						*cell = std::make_unique<CB>(asyncpp::stop_token(tok), CFn(id, ex));
					h::quiet([&] {
						c.in_ctor = false;
						c.reg_e = ++w.clock;
						vrt::note("T%d registered %d", t, id);
					});
					mine.emplace_back(cell, id);
				};
				for (auto& s : prog[t]) {
					switch (s.k) {
					case 0:
					case 1:
					case 2:
					case 3: reg(s.x); break;
					case 4:
					case 5:
						if (!mine.empty()) dereg((std::size_t)s.x % mine.size());
						break;
					case 6:
					case 7: {
						if (!src) break;
						if (w.one_requester && requester != t) break;
						if (w.one_requester && w.published == 0) w.published = 42;
						uint64_t b = tick();
						vrt::note("T%d requests stop", t);
						bool first = h::quiet([&] { return w.stop_b == never; });
						if (first) h::quiet([&] { w.overlap++; });
						bool r = src->request_stop();
						h::quiet([&] {
							if (r) {
								w.wins++;
								w.winner = vrt::self();
								w.stop_b = b;
								w.stop_e = ++w.clock;
							}
							if (w.wins > 1) vrt::fail("request_stop returned true twice");
						});
						CHECK(tok.stop_requested() && src->stop_requested(), "stop not requested after request_stop returned");
						break;
					}
					case 8: {
						bool a = s.x & 1 && src ? src->stop_requested() : tok.stop_requested();
						bool b = tok.stop_requested();
						if (a) w.see("after stop_requested() returned true");
						CHECK(!a || b, "stop_requested went back to false");
						if (a) CHECK(tok.stop_possible());
						if (src) CHECK(tok.stop_possible(), "stop is not possible although there is a source");
						break;
					}
					case 9:
						if (src) {
							extra_src = *src;
							src_add();
							auto moved = std::move(*extra_src);
							extra_src.reset();
							// `moved` counts
							asyncpp::stop_token t2 = moved.get_token();
							CHECK(t2 == tok);
							{
								auto gone = std::move(moved);
							}
							src_del();
						}
						break;
					case 10:
						if (src && s.x < 3) {
							src.reset();
							src_del();
						}
						break;
					case 11: {
						asyncpp::stop_token a = tok, b;
						b = a;
						swap(a, b);
						CHECK(a == b);
						break;
					}
					}
				}
				while (!mine.empty() && (t & 1))
					dereg(0);
				if (src) {
					src.reset();
					src_del();
				}
				// remaining callbacks stay registered until the end of this thread
				while (!mine.empty())
					dereg(0);
			});
		}
		if (!keep_source) {
			root.reset();
			src_del();
			// the threads are the last owners of the state
			if (vrt::flip()) tok0.reset();
		}
		h::join_all(ts);
		if (keep_source) {
			bool expect = w.wins == 0;
			w.published = 42; // all threads are joined
			bool r = root->request_stop();
			CHECK(r == expect, "final request_stop returned %d", (int)r);
		}
		if (tok0 && !keep_source && w.wins == 0) CHECK(!tok0->stop_possible() && !tok0->stop_requested(), "stop is possible without a source");
		if (tok0 && w.wins) CHECK(tok0->stop_possible() && tok0->stop_requested());
	}
	int fired = 0;
	for (std::size_t i = 0; i < w.cbs.size(); i++) {
		auto& c = *w.cbs[i];
		CHECK(!c.running);
		fired += c.invoked;
		if (w.wins == 0) {
			CHECK(c.invoked == 0, "callback %zu was invoked without a stop request", i);
			continue;
		}
		if (c.invoked) {
			CHECK(c.inv > w.stop_b, "callback %zu was invoked before the stop request", i);
			CHECK(c.thread == w.winner || c.thread == c.reg_thread, "callback %zu ran on an unrelated thread", i);
			if (c.thread != w.winner) CHECK(c.inv < c.reg_e, "callback %zu ran on the registering thread after its registration", i);
			if (c.reg_e < w.stop_b) CHECK(c.thread == w.winner && c.inv < w.stop_e, "callback %zu did not run inside of request_stop", i);
		} else {
			CHECK(c.dereg_b < w.stop_e || no_source_since < c.reg_e, "callback %zu was not invoked by the stop request", i);
			CHECK(c.reg_b < w.stop_e, "callback %zu was not invoked when registered after the stop request", i);
		}
	}
	if (fired && w.cbs.size() > 1) vrt::nontrivial();
	G = nullptr;
}
// A callback that destroys its own stop_callback or the ones of others while the request runs.
SCENARIO(destroy_inside, 150) {
	CW w;
	G = &w;
	int n = (int)vrt::range(1, 4);
	{
		asyncpp::stop_source src;
		std::vector<std::unique_ptr<CB>> cbs(n);
		std::vector<int> kills(n);
		std::vector<bool> owner_thread(n);
		for (int i = 0; i < n; i++) {
			kills[i] = (int)vrt::choose((uint32_t)n + 1);
			owner_thread[i] = vrt::chance(1, 3);
		}
		// a callback may be destroyed by one party only
		std::vector<int> by(n, -1);
		for (int i = 0; i < n; i++)
			if (kills[i] < n && by[kills[i]] < 0 && !owner_thread[kills[i]]) by[kills[i]] = i;
		for (int i = 0; i < n; i++) {
			w.cbs.push_back(std::make_unique<CCb>());
			w.cbs[i]->reg_thread = 0;
			w.cbs[i]->reg_b = ++w.clock;
			cbs[i] = std::make_unique<CB>(src.get_token(), CFn(i, [&, i] {
											  for (int k = 0; k < n; k++)
												  if (by[k] == i) {
													  vrt::note("callback %d destroys %d", i, k);
													  auto p = std::move(cbs[k]);
													  p.reset();
													  h::quiet([&] { w.cbs[k]->dereg_e = ++w.clock; });
												  }
											  vrt::yield_point();
										  }));
			w.cbs[i]->reg_e = ++w.clock;
		}
		std::vthread other([&] {
			for (int i = 0; i < n; i++)
				if (owner_thread[i]) {
					vrt::note("other thread destroys %d", i);
					auto p = std::move(cbs[i]);
					p.reset();
					bool inv = h::quiet([&] {
						w.cbs[i]->dereg_e = ++w.clock;
						if (w.cbs[i]->running) vrt::fail("deregistration returned while the callback runs on another thread");
						return w.cbs[i]->invoked > 0;
					});
					if (inv) CHECK(w.cbs[i]->effect == i + 1);
				}
		});
		CHECK(src.request_stop());
		CHECK(!src.request_stop());
		other.join();
		for (int i = 0; i < n; i++) {
			auto& c = *w.cbs[i];
			CHECK(c.invoked <= 1);
			if (by[i] == i || (by[i] < 0 && !owner_thread[i])) CHECK(c.invoked == 1, "callback %d was not invoked", i);
		}
	}
	if (n > 1) vrt::nontrivial();
	G = nullptr;
}
// Many callbacks, tokens and sources
SCENARIO(many_callbacks, 1, vrt::NO_TSAN) {
	int n = h::bulk();
	asyncpp::stop_source src;
	std::vector<asyncpp::stop_token> toks;
	std::vector<asyncpp::stop_source> srcs;
	std::vector<int> ran((std::size_t)n * 2, 0);
	struct Fn {
		int* r;
		h::Tracked t;
		void operator()() {
			t.check();
			++*r;
		}
	};
	std::vector<std::unique_ptr<asyncpp::stop_callback<Fn>>> cbs((std::size_t)n * 2);
	for (int i = 0; i < n; i++) {
		if (vrt::chance(1, 3)) srcs.push_back(src);
		if (vrt::chance(1, 3)) toks.push_back(src.get_token());
		auto& from = srcs.empty() ? src : srcs.back();
		cbs[i].reset(new asyncpp::stop_callback<Fn>(toks.empty() || vrt::flip() ? from.get_token() : toks.back(), Fn{&ran[i], h::Tracked(i)}));
	}
	std::vector<char> gone((std::size_t)n, 0);
	uint32_t mode = vrt::choose(3);
	for (int i = 0; i < n; i++)
		if (mode == 1 ? i % 2 == 0 : mode == 2 && vrt::flip()) {
			cbs[i].reset();
			gone[i] = 1;
		}
	CHECK(!src.stop_requested() && src.stop_possible());
	CHECK((srcs.empty() || vrt::flip() ? src : srcs.back()).request_stop(), "the first request_stop() failed");
	CHECK(src.stop_requested());
	CHECK(!src.request_stop(), "a second request_stop() succeeded");
	for (int i = 0; i < n; i++)
		CHECK(ran[i] == !gone[i], "callback %d, which is %sregistered, was invoked %d times", i, gone[i] ? "not " : "", ran[i]);
	for (int i = n; i < n + 20 && i < 2 * n; i++) {
		cbs[i].reset(new asyncpp::stop_callback<Fn>(src.get_token(), Fn{&ran[i], h::Tracked(i)}));
		CHECK(ran[i] == 1, "a callback registered after the request was not invoked");
	}
	for (auto& t : toks)
		CHECK(t.stop_requested() && t.stop_possible(), "a token does not see the request");
	{
		asyncpp::stop_source other;
		auto t = other.get_token();
		for (int i = 0; i < n; i++)
			srcs.push_back(other);
		srcs.clear();
		CHECK(t.stop_possible(), "a source is left but no stop is possible");
		other = asyncpp::stop_source(asyncpp::nostopstate);
		CHECK(!t.stop_possible(), "no source is left but a stop is possible");
	}
	if (n > 20) vrt::nontrivial();
}
