// C07: promise<T>
#include "../lib/vrt_shim.h"
#include <asyncpp/promise.h>
#include "../lib/hist.h"
using h::val;

namespace {
	// outcome: pending 0, value v>0, error -e
	enum K { SETTLE, OBS, REG, CB };
	struct Op {
		K k;
		int64_t o = 0;
		bool res = false;
	};
	struct Model {
		int64_t o = 0;
		bool final_ok() const { return o != 0; }
		std::string key() const { return std::to_string(o); }
		void apply(const Op& op, std::vector<Model>& out) const {
			Model m = *this;
			switch (op.k) {
			case SETTLE:
				if (op.res != (o == 0)) return;
				if (op.res) m.o = op.o;
				break;
			case OBS:
				if (op.o != o) return;
				break;
			default: break;
			}
			out.push_back(m);
		}
	};
	struct err {
		int64_t id;
	};

	struct err_from_move_only : err {
		explicit err_from_move_only(std::unique_ptr<int64_t> p) : err{*p} {}
	};

	template<typename T>
	struct api {
		using P = asyncpp::promise<T>;
		static bool try_fulfill(P& p, int64_t v, int how) {
			if constexpr (std::is_void_v<T>)
				return p.try_fulfill();
			else if constexpr (std::is_same_v<T, h::Tracked>) {
				if (how == 1) {
					h::Tracked t(v);
					return p.try_fulfill(t); // copies
				}
				if (how == 2) return p.try_fulfill(v); // converts
				return p.try_fulfill(val<T>::make(v));
			} else
				return p.try_fulfill(val<T>::make(v));
		}
		static bool fulfill(P& p, int64_t v) {
			try {
				if constexpr (std::is_void_v<T>)
					p.fulfill();
				else
					p.fulfill(val<T>::make(v));
				return true;
			} catch (const std::logic_error&) { return false; }
		}
		static int64_t value(const auto& v) { return val<T>::get(v); }
	};
	int64_t id_of(const std::exception_ptr& e) {
		try {
			std::rethrow_exception(e);
		} catch (const err& x) { return -x.id; } catch (...) {
			vrt::fail("a different exception arrived");
		}
	}

	struct Base : h::Hist<Model, Op> {
		int64_t winner = 0; // outcome of the successful call (only known after it returned)
		int wins = 0, open = 0, next = 1;
		int callbacks_expected = 0, blocked = 0, suspended = 0, timeouts = 0, late = 0, lost = 0;
		struct CB {
			int kind; // 0 both, 1 only error, 2 only value, 3 settle
			int count = 0;
		};
		std::vector<CB> cbs;
		std::map<int64_t, std::exception_ptr> errors;
		const void* address = nullptr;
		void same_object(const void* a) {
			vrt::Quiet q;
			CHECK(address == nullptr || address == a, "two observers got different objects");
			address = a;
		}
		int new_cb(int kind) {
			vrt::Quiet q;
			cbs.push_back({kind});
			return (int)cbs.size() - 1;
		}
		void check_cbs() {
			for (std::size_t i = 0; i < cbs.size(); i++) {
				int expect = cbs[i].kind == 1 ? winner < 0 : cbs[i].kind == 2 ? winner > 0 : 1;
				CHECK(cbs[i].count == expect, "callback %zu was invoked %d times, expected %d", i, cbs[i].count, expect);
			}
		}
		void called(int i, int64_t out) {
			vrt::Quiet q;
			CHECK(++cbs[i].count == 1, "callback %d invoked twice", i);
			vrt::note("callback %d: %lld", i, (long long)out);
			auto k = begin({OBS, out});
			end(k);
		}
	};
	template<typename T>
	struct Ctx : Base {
		asyncpp::promise<T>* p = nullptr;
	};
	template<typename T>
	int64_t peek(const asyncpp::promise<T>& p, Base* c) {
		auto [v, e] = p.try_get(std::nothrow);
		if (e) {
			int64_t o = id_of(e);
			h::quiet([&] { CHECK(c->errors.count(o) && (!c->errors[o] || c->errors[o] == e), "not the very exception"); });
			return o;
		}
		if constexpr (std::is_void_v<T>)
			return v ? 1 : 0;
		else {
			if (!v) return 0;
			c->same_object(v);
			return val<T>::get(*v);
		}
	}
	template<typename T>
	h::co awaiter(Ctx<T>* c, asyncpp::promise<T> p) {
		auto i = c->begin({OBS});
		int64_t o = 0;
		bool imm = false;
		auto aw = p.operator co_await();
		try {
			if constexpr (std::is_void_v<T>) {
				co_await h::watched{aw, imm};
				o = 1;
			} else {
				auto& r = co_await h::watched{aw, imm};
				c->same_object(&r);
				o = val<T>::get(r);
			}
		} catch (const err& e) { o = -e.id; }
		h::quiet([&] {
			vrt::note("co_await -> %lld%s", (long long)o, imm ? "" : " after waiting");
			c->open--;
			if (!imm) c->suspended++;
		});
		c->end(i, [&](Op& op) { op.o = o; });
	}
	template<typename T>
	int64_t blocking(Ctx<T>* c, const asyncpp::promise<T>& p) {
		try {
			if constexpr (std::is_void_v<T>) {
				p.get();
				return 1;
			} else {
				auto& r = p.get();
				c->same_object(&r);
				return val<T>::get(r);
			}
		} catch (const err& e) { return -e.id; }
	}
	struct Step {
		int kind;
		int arg;
	};
	template<typename T>
	void perform(Ctx<T>* c, asyncpp::promise<T> p, Step s) {
		switch (s.kind) {
		case 0:   // try_fulfill
		case 1: { // fulfill
			int64_t v = std::is_void_v<T> ? 1 : h::quiet([&] { return 1 + c->next++; });
			auto i = c->begin({SETTLE, v});
			bool r = s.kind == 0 ? api<T>::try_fulfill(p, v, s.arg) : api<T>::fulfill(p, v);
			h::quiet([&] {
				vrt::note("fulfill(%lld) -> %d", (long long)v, r);
				if (r) c->wins++, c->winner = v;
				else
					c->lost++;
			});
			c->end(i, [&](Op& o) { o.res = r; });
			break;
		}
		case 2:   // try_reject
		case 3: { // reject
			int64_t id = h::quiet([&] { return (int64_t)c->next++ + 1; });
			auto e = std::make_exception_ptr(err{id});
			bool given = s.arg != 1;
			h::quiet([&] { c->errors[-id] = given ? e : nullptr; });
			auto i = c->begin({SETTLE, -id});
			bool r;
			if (given) {
				if (s.kind == 2)
					r = p.try_reject(e);
				else
					try {
						p.reject(e);
						r = true;
					} catch (const std::logic_error&) { r = false; }
			} else {
				if (s.kind == 2)
					r = p.template try_reject<err>(id);
				else
					try {
						p.template reject<err>(id);
						r = true;
					} catch (const std::logic_error&) { r = false; }
			}
			e = nullptr;
			h::quiet([&] {
				vrt::note("reject(%lld) -> %d", (long long)id, r);
				if (r) c->wins++, c->winner = -id;
				else
					c->lost++;
			});
			c->end(i, [&](Op& o) { o.res = r; });
			break;
		}
		case 4: { // then
			int cb = c->new_cb(s.arg);
			bool a = s.arg != 1, b = s.arg != 2;
			// each callback is its own expectation: exactly one of both runs
			std::function<void(const std::exception_ptr&)> on_err;
			if (b)
				on_err = [c, cb](const std::exception_ptr& e) { c->called(cb, id_of(e)); };
			if constexpr (std::is_void_v<T>) {
				std::function<void()> on_val;
				if (a) on_val = [c, cb] { c->called(cb, 1); };
				p.then(on_val, on_err);
			} else {
				std::function<void(const T&)> on_val;
				if (a) on_val = [c, cb](const T& v) { c->called(cb, val<T>::get(v)); };
				p.then(on_val, on_err);
			}
			break;
		}
		case 5: { // on_settle
			int cb = c->new_cb(3);
			p.on_settle([c, cb] {
				auto o = peek(*c->p, c);
				CHECK(o != 0, "on_settle callback while pending");
				c->called(cb, o);
			});
			break;
		}
		case 6: {
			h::quiet([&] { c->open++; });
			awaiter<T>(c, p);
			break;
		}
		case 7: {
			auto i = c->begin({OBS});
			h::quiet([&] { vrt::note("get()"); });
			auto o = blocking(c, p);
			h::quiet([&] { vrt::note("get() -> %lld", (long long)o), c->blocked++; });
			c->end(i, [&](Op& op) { op.o = o; });
			break;
		}
		case 8: { // timed get
			auto i = c->begin({OBS});
			int64_t ns = s.arg * 1000000ll, t0 = vrt::now_ns(), o = 0;
			bool got = false;
			try {
				if constexpr (std::is_void_v<T>) {
					got = p.get(std::chrono::nanoseconds(ns));
					o = got;
				} else {
					auto* r = p.get(std::chrono::nanoseconds(ns));
					if (r) {
						c->same_object(r);
						o = val<T>::get(*r);
						got = true;
					}
				}
			} catch (const err& e) {
				o = -e.id;
				got = true;
			}
			int64_t t = vrt::now_ns() - t0;
			if (!got) CHECK(t >= ns, "get(timeout) gave up after %lld of %lld ns", (long long)t, (long long)ns);
			h::quiet([&] { vrt::note("get(%d ms) -> %lld", s.arg, (long long)o), c->timeouts += !got; });
			c->end(i, [&](Op& op) { op.o = o; });
			break;
		}
		case 9: {
			auto i = c->begin({OBS});
			auto o = peek(p, c);
			c->end(i, [&](Op& op) { op.o = o; });
			break;
		}
		case 10: {
			auto i = c->begin({OBS});
			int64_t o = 0;
			try {
				auto r = p.try_get();
				if constexpr (std::is_void_v<T>)
					o = r;
				else if (r)
					o = val<T>::get(*r);
			} catch (const err& e) { o = -e.id; }
			c->end(i, [&](Op& op) { op.o = o; });
			break;
		}
		default: { // state queries: consistent with the outcome
			auto i = c->begin({OBS});
			// each of them has to be safe on its own
			bool pe = s.arg == 0 ? p.is_pending() : s.arg == 1 ? !p.is_fulfilled() : !p.is_rejected();
			auto o = pe && s.arg == 0 ? 0 : peek(p, c);
			if (!pe && s.arg) CHECK(s.arg == 1 ? o > 0 : o < 0, "is_fulfilled/is_rejected disagree with the outcome");
			c->end(i, [&](Op& op) { op.o = o; });
			if (o) CHECK(p.is_fulfilled() == (o > 0) && p.is_rejected() == (o < 0) && !p.is_pending(), "state queries disagree with the outcome");
		}
		}
	}
	template<typename T>
	void concurrent() {
		Ctx<T> c;
		int nt = (int)vrt::range(2, 4), total = 0;
		std::vector<std::vector<Step>> prog(nt);
		for (auto& t : prog) {
			int n = (int)vrt::range(1, 5);
			for (int i = 0; i < n && total < 14; i++, total++) {
				uint32_t x = vrt::choose(15);
				Step s;
				s.kind = x >= 12 ? (int)x - 11 : (int)x;
				if (s.kind >= 12) s.kind = 6;
				s.arg = (int)vrt::choose(s.kind == 8 ? 4 : 3);
				if (s.kind == 7 && i + 1 < n && vrt::chance(2, 3)) s.kind = 9;
				t.push_back(s);
			}
		}
		{
			std::optional<asyncpp::promise<T>> p;
			p.emplace();
			c.p = &*p;
			std::vector<std::vthread> ts;
			for (auto& t : prog)
				ts.emplace_back([&c, &t, &p] {
					asyncpp::promise<T> mine(*p);
					for (auto& s : t)
						perform<T>(&c, mine, s);
				});
			vrt::wait_idle();
			perform<T>(&c, *p, {0, 0});
			h::join_all(ts);
			vrt::wait_idle();
			CHECK(c.wins == 1, "%d attempts to settle succeeded", c.wins);
			CHECK(c.open == 0, "%d awaiting coroutine(s) were not resumed", c.open);
			CHECK(peek(*p, &c) == c.winner, "final outcome is not the winner's");
			c.check_cbs();
		}
		c.errors.clear();
		c.verify(Model{}, "the observations are not consistent with a single settlement");
		if (c.wins && (c.suspended || c.blocked || !c.cbs.empty()) && total > 3) vrt::nontrivial();
		if (c.suspended) vrt::label("suspended awaiter");
		if (c.blocked) vrt::label("blocking get");
		if (c.timeouts) vrt::label("timed get expired");
		if (c.lost) vrt::label("lost race");
	}

	// ---------------------------------------------------------------- sequential, with re-entrancy and lifetimes
	template<typename T>
	struct SeqCtx {
		using P = asyncpp::promise<T>;
		std::vector<std::unique_ptr<P>> copies;
		int64_t out = 0;
		int next = 1, budget = 0, depth = 0, open = 0, nested_ops = 0, dropped_in_callback = 0, throws = 0;
		struct CB {
			int kind, count = 0;
		};
		std::vector<CB> cbs;
		struct Probe {
			SeqCtx* c;
			explicit Probe(SeqCtx* p) : c(p) {}
			~Probe() {
				if (!c->copies.empty()) CHECK(c->copies[0]->is_pending() == (c->out == 0), "is_pending() while a callback is destroyed");
			}
		};

		P* any() { return copies.empty() ? nullptr : copies[vrt::choose((uint32_t)copies.size())].get(); }
		void called(int i, int64_t o) {
			vrt::note("callback %d: %lld", i, (long long)o);
			CHECK(++cbs[i].count == 1, "callback %d invoked twice", i);
			CHECK(o == out, "callback %d got %lld instead of %lld", i, (long long)o, (long long)out);
			nested();
		}
		void nested() {
			if (depth > 5) return;
			while (budget > 0 && vrt::chance(1, 3)) {
				budget--;
				nested_ops++;
				op(true);
			}
		}
		static h::co await(SeqCtx* c, P* p) {
			bool imm = false, must = c->out != 0;
			c->open++;
			int64_t o = 0;
			auto aw = p->operator co_await();
			try {
				if constexpr (std::is_void_v<T>) {
					co_await h::watched{aw, imm};
					o = 1;
				} else
					o = val<T>::get(co_await h::watched{aw, imm});
			} catch (const err& e) { o = -e.id; }
			CHECK(imm == must, "co_await %s", imm ? "did not suspend on a pending promise" : "suspended on a settled promise");
			CHECK(o == c->out, "co_await returned %lld instead of %lld", (long long)o, (long long)c->out);
			c->open--;
			c->nested();
		}
		void settle(int64_t o, bool expect, auto&& fn) {
			vrt::note("settle(%lld) expects %d", (long long)o, expect);
			if (expect) out = o;
			bool r = fn();
			CHECK(r == expect, "settling returned %d, expected %d", r, expect);
			if (expect) check_all();
		}
		void check_all() {
			for (std::size_t i = 0; i < cbs.size(); i++) {
				int e = out == 0 ? 0 : cbs[i].kind == 1 ? out < 0 : cbs[i].kind == 2 ? out > 0 : 1;
				CHECK(cbs[i].count == e, "callback %zu was invoked %d times, expected %d", i, cbs[i].count, e);
			}
			if (out) CHECK(open == 0 || depth > 1, "%d coroutine(s) not resumed", open);
		}
		void op(bool nested) {
			P* p = any();
			if (!p) return;
			depth++;
			switch (vrt::choose(15)) {
			case 0: {
				if (!nested && out == 0 && vrt::chance(2, 3)) break; // keep it pending for a while
				int64_t v = std::is_void_v<T> ? 1 : next++;
				bool how = vrt::flip();
				int conv = (int)vrt::choose(3);
				settle(v, out == 0, [&] { return how ? api<T>::try_fulfill(*p, v, conv) : api<T>::fulfill(*p, v); });
				break;
			}
			case 1: {
				if (!nested && out == 0 && vrt::chance(2, 3)) break;
				int64_t id = next++;
				uint32_t how = vrt::choose(6);
				settle(-id, out == 0, [&] {
					auto e = std::make_exception_ptr(err{id});
					try {
						if (how == 0) return p->try_reject(e);
						if (how == 1) return p->template try_reject<err>(id);
						if (how == 4) return p->template try_reject<err_from_move_only>(std::make_unique<int64_t>(id));
						if (how == 5) {
							p->template reject<err_from_move_only>(std::make_unique<int64_t>(id));
							return true;
						}
						if (how == 2)
							p->reject(e);
						else
							p->template reject<err>(id);
						return true;
					} catch (const std::logic_error&) { return false; }
				});
				break;
			}
			case 2:
			case 3: {
				int kind = (int)vrt::choose(4), i = (int)cbs.size();
				cbs.push_back({kind});
				vrt::note("callback %d kind %d registered", i, kind);
				// destroying a callback may use the promise as well
				auto pr = std::make_shared<Probe>(this);
				if (kind == 3) {
					p->on_settle([this, i, pr] { called(i, out); });
				} else {
					std::function<void(const std::exception_ptr&)> b;
					if (kind != 2) b = [this, i, pr](const std::exception_ptr& e) { called(i, id_of(e)); };
					if constexpr (std::is_void_v<T>) {
						std::function<void()> a;
						if (kind != 1) a = [this, i, pr] { called(i, 1); };
						p->then(a, b);
					} else {
						std::function<void(const T&)> a;
						if (kind != 1) a = [this, i, pr](const T& v) { called(i, val<T>::get(v)); };
						p->then(a, b);
					}
				}
				break;
			}
			case 4:
			case 5:
				if (open > 6) break;
				vrt::note("coroutine awaits");
				await(this, p);
				break;
			case 6:
				vrt::note("copy");
				copies.push_back(std::make_unique<P>(*p));
				break;
			case 7: // drop a copy
				if (copies.size() > 1 || (nested && out != 0)) {
					vrt::note("copy dropped, %zu left", copies.size() - 1);
					if (nested) dropped_in_callback++;
					copies.erase(copies.begin() + vrt::choose((uint32_t)copies.size()));
				}
				break;
			case 8: {
				P* from = copies[vrt::choose((uint32_t)copies.size())].get();
				if (vrt::flip()) { // to the same promise, possibly to itself
					*p = *from;
					break;
				}
				vrt::note("copy assigned to another promise");
				auto other = std::make_unique<P>();
				uint32_t how = vrt::choose(3);
				int64_t before = how == 1 ? 1 : how == 2 ? -77 : 0, seen = 0;
				other->on_settle([&] { seen++; });
				if (how == 1) api<T>::try_fulfill(*other, 1, 0);
				if (how == 2) other->template reject<err>(77);
				P keep(*other);
				*other = *from;
				CHECK(seen == (before != 0) && keep.is_pending() == (before == 0) && keep.is_fulfilled() == (before > 0), "assigning a copy changed the promise it held before");
				if (before == 0) keep.template reject<err>(78);
				CHECK(seen == 1);
				copies.push_back(std::move(other));
				p = copies.back().get();
				break;
			}
			case 11: // no callback
				p->on_settle(nullptr);
				p->then(nullptr, nullptr);
				break;
			case 9:
				if constexpr (std::is_same_v<T, h::Tracked>) {
					if (nested) break;
					h::Tracked t(next);
					h::g_throw_copy = 1;
					bool thrown = false, r = true;
					vrt::note("settling throws");
					try {
						r = p->try_fulfill(static_cast<const h::Tracked&>(t));
					} catch (const h::copy_error&) { thrown = true; }
					h::g_throw_copy = 0;
					throws++;
					CHECK(thrown == (out == 0) && (thrown || !r), "try_fulfill with a throwing copy constructor");
				}
				break;
			case 10: {
				int64_t o = 0, t0 = vrt::now_ns();
				uint32_t ms = vrt::choose(3);
				bool got = false;
				try {
					auto r = p->get(std::chrono::milliseconds(ms));
					got = (bool)r;
					if constexpr (std::is_void_v<T>)
						o = r;
					else if (r)
						o = val<T>::get(*r);
				} catch (const err& e) { o = -e.id, got = true; }
				CHECK(o == out, "get(timeout) gave %lld instead of %lld", (long long)o, (long long)out);
				if (!got) CHECK(vrt::now_ns() - t0 >= ms * 1000000ll, "get(timeout) gave up early");
				else
					CHECK(vrt::now_ns() == t0 || ms == 0, "get(timeout) waited although settled");
				break;
			}
			default: break;
			}
			if (P* q = any()) {
				CHECK(q->is_pending() == (out == 0) && q->is_fulfilled() == (out > 0) && q->is_rejected() == (out < 0), "state queries");
				auto [v, e] = q->try_get(std::nothrow);
				if constexpr (std::is_void_v<T>) {
					CHECK((out != 0) == v && (v || !e), "try_get(nothrow)");
				} else {
					CHECK((out > 0) == (v != nullptr), "try_get(nothrow) value");
					if (v) CHECK(val<T>::get(*v) == out, "try_get(nothrow) returned another value");
				}
				CHECK((out < 0) == (e != nullptr), "try_get(nothrow) error");
				if (e) CHECK(id_of(e) == out, "try_get(nothrow) returned another exception");
			}
			depth--;
		}
	};
	template<typename T>
	void sequential() {
		SeqCtx<T> c;
		using P = asyncpp::promise<T>;
		c.budget = (int)vrt::range(0, 12);
		uint32_t start = vrt::choose(6);
		if (start == 4) {
			c.out = std::is_void_v<T> ? 1 : 99;
			if constexpr (std::is_void_v<T>)
				c.copies.push_back(std::make_unique<P>(P::make_fulfilled()));
			else
				c.copies.push_back(std::make_unique<P>(P::make_fulfilled(val<T>::make(99))));
		} else if (start == 5) {
			c.out = -99;
			if (vrt::flip())
				c.copies.push_back(std::make_unique<P>(P::make_rejected(std::make_exception_ptr(err{99}))));
			else if (vrt::flip())
				c.copies.push_back(std::make_unique<P>(P::template make_rejected<err_from_move_only>(std::make_unique<int64_t>(99))));
			else
				c.copies.push_back(std::make_unique<P>(P::template make_rejected<err>(99)));
		} else
			c.copies.push_back(std::make_unique<P>());
		int n = (int)vrt::range(2, 24);
		for (int i = 0; i < n && !c.copies.empty(); i++) {
			c.op(false);
			c.check_all();
		}
		if (c.out == 0) {
			int64_t v = 1000;
			P* p = c.any();
			if (std::is_void_v<T> || vrt::flip())
				c.settle(std::is_void_v<T> ? 1 : v, true, [&] { return api<T>::try_fulfill(*p, v, 0); });
			else
				c.settle(-5, true, [&] { return p->template try_reject<err>(5); });
		}
		c.check_all();
		CHECK(c.open == 0, "%d coroutine(s) not resumed", c.open);
		int released = 0;
		c.copies.clear();
		(void)released;
		CHECK(h::g_tracked.live == 0, "the value outlived the last copy of the promise");
		if (c.cbs.size() > 1) vrt::nontrivial();
		if (c.nested_ops) vrt::label("nested operations");
		if (c.dropped_in_callback) vrt::label("copies dropped in callbacks");
		if (c.throws) vrt::label("throwing value");
	}
} // namespace
SCENARIO(concurrent_tracked, 250) { concurrent<h::Tracked>(); }
SCENARIO(concurrent_void, 50) { concurrent<void>(); }
SCENARIO(concurrent_moveonly, 50) { concurrent<h::MoveOnly>(); }
SCENARIO(sequential_tracked, 100, vrt::NO_TSAN) { sequential<h::Tracked>(); }
SCENARIO(sequential_void, 50, vrt::NO_TSAN) { sequential<void>(); }
SCENARIO(sequential_moveonly, 50, vrt::NO_TSAN) { sequential<h::MoveOnly>(); }
// Many observers of one promise
SCENARIO(many_observers, 1, vrt::NO_TSAN) {
	int n = h::bulk();
	bool value = vrt::flip();
	int64_t out = value ? 4711 : -4711;
	std::vector<int> seen((std::size_t)n * 2, 0);
	int wrong = 0;
	{
		asyncpp::promise<h::Tracked> p;
		std::vector<asyncpp::promise<h::Tracked>> copies;
		auto observe = [&](int i) {
			auto& q = vrt::flip() ? p : (copies.push_back(p), copies.back());
			switch (vrt::choose(3)) {
			case 0: q.on_settle([&, i] { seen[i]++; }); break;
			case 1:
				q.then(
					[&, i](const h::Tracked& v) {
						seen[i]++;
						wrong += v.get() != out;
					},
					[&, i](const std::exception_ptr& e) {
						seen[i]++;
						wrong += id_of(e) != out;
					});
				break;
			default:
				[](asyncpp::promise<h::Tracked> q, int* seen, int* wrong, int64_t out) -> h::co {
					int64_t got;
					try {
						got = (co_await q).get();
					} catch (...) { got = id_of(std::current_exception()); }
					++*seen;
					*wrong += got != out;
				}(q, &seen[i], &wrong, out);
			}
		};
		for (int i = 0; i < n; i++)
			observe(i);
		CHECK(p.is_pending() && std::accumulate(seen.begin(), seen.end(), 0) == 0, "notified before the promise was settled");
		auto& s = copies.empty() ? p : copies[vrt::choose((uint32_t)copies.size())];
		if (value)
			s.fulfill(h::Tracked(out));
		else
			s.reject<err>(-out);
		for (int i = 0; i < n; i++)
			CHECK(seen[i] == 1, "observer %d of %d was notified %d times", i, n, seen[i]);
		for (int i = n; i < 2 * n; i++) {
			observe(i);
			CHECK(seen[i] == 1, "observer registered after settlement was notified %d times", seen[i]);
		}
		for (auto& c : copies) {
			auto [v, e] = c.try_get(std::nothrow);
			CHECK(value ? v && v->get() == out : e && id_of(e) == out, "a copy reports another outcome");
		}
	}
	CHECK(wrong == 0, "%d of %d observers saw another outcome", wrong, 2 * n);
	for (int i = 0; i < 2 * n; i++)
		CHECK(seen[i] == 1, "observer %d of %d was notified %d times", i, n, seen[i]);
	if (n > 20) vrt::nontrivial();
}
