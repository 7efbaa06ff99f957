// C08: promise_first, promise_first_successful, promise_all
#include "../lib/vrt_shim.h"
#include <asyncpp/promise.h>
#include "../lib/helpers.h"

namespace {
	using h::Tracked;
	using R = Tracked;
	struct err {
		int64_t id;
	};
	int64_t id_of(const std::exception_ptr& e) {
		try {
			std::rethrow_exception(e);
		} catch (const err& x) { return -x.id; } catch (...) { vrt::fail("a different exception arrived"); }
	}
	// Inputs alternate between types that convert to the result type.
	template<int I>
	using In = std::conditional_t<I % 2 == 0, asyncpp::promise<Tracked>, asyncpp::promise<int64_t>>;
	constexpr int MAXN = 5;
	struct Inputs {
		std::tuple<In<0>, In<1>, In<2>, In<3>, In<4>> p;
		asyncpp::promise<void> v[MAXN]; // settled alike, input of promise_all only
	};
	template<typename F>
	void at(Inputs& in, int i, F&& f) {
		switch (i) {
		case 0: f(std::get<0>(in.p)); break;
		case 1: f(std::get<1>(in.p)); break;
		case 2: f(std::get<2>(in.p)); break;
		case 3: f(std::get<3>(in.p)); break;
		case 4: f(std::get<4>(in.p)); break;
		}
	}
	// argument order is a permutation choice: rotate
	template<int N, std::size_t... I>
	void call(int kind, Inputs& in, std::optional<asyncpp::promise<R>>& r, std::optional<asyncpp::promise<void>>& a, bool voids,
			  std::index_sequence<I...>) {
		if (kind == 0)
			r.emplace(asyncpp::promise_first<R>(std::get<I>(in.p)...));
		else if (kind == 1)
			r.emplace(asyncpp::promise_first_successful<R>(std::get<I>(in.p)...));
		else if (voids)
			a.emplace(asyncpp::promise_all(in.v[I]...));
		else
			a.emplace(asyncpp::promise_all(std::get<I>(in.p)...));
	}
	struct Comb {
		int kind = 0, n = 0;
		bool voids = false;
		std::optional<asyncpp::promise<R>> r;
		std::optional<asyncpp::promise<void>> a;
		uint64_t cb = UINT64_MAX, ce = UINT64_MAX; // call interval
		int calls = 0;
		int64_t out = 0; // outcome reported to the callback
		uint64_t when = 0;
	};
	struct Ctx {
		Inputs in;
		int64_t plan[MAXN];                  // >0 value <0 error
		uint64_t sb[MAXN], se[MAXN];         // settle interval
		uint64_t vsb[MAXN], vse[MAXN];
		uint64_t clock = 0;
		std::vector<std::unique_ptr<Comb>> combs;
		int late_ops = 0;
		Ctx() {
			for (int i = 0; i < MAXN; i++)
				sb[i] = se[i] = vsb[i] = vse[i] = UINT64_MAX, plan[i] = 0;
		}
		uint64_t now() {
			vrt::Quiet q;
			return ++clock;
		}
	};
	int64_t state(Comb& c) { // 0 pending, outcome otherwise; all: 1 fulfilled
		if (c.kind == 2) {
			auto [v, e] = c.a->try_get(std::nothrow);
			CHECK(!e, "promise_all was rejected");
			return v ? 1 : 0;
		}
		auto [v, e] = c.r->try_get(std::nothrow);
		if (e) return id_of(e);
		return v ? v->get() : 0;
	}
	void do_call(Ctx* x, Comb* c) {
		uint64_t t = x->now();
		h::quiet([&] {
			c->cb = t;
			vrt::note("combinator kind %d over %d inputs", c->kind, c->n);
		});
		switch (c->n) {
		case 0: call<0>(c->kind, x->in, c->r, c->a, c->voids, std::make_index_sequence<0>{}); break;
		case 1: call<1>(c->kind, x->in, c->r, c->a, c->voids, std::make_index_sequence<1>{}); break;
		case 2: call<2>(c->kind, x->in, c->r, c->a, c->voids, std::make_index_sequence<2>{}); break;
		case 3: call<3>(c->kind, x->in, c->r, c->a, c->voids, std::make_index_sequence<3>{}); break;
		case 4: call<4>(c->kind, x->in, c->r, c->a, c->voids, std::make_index_sequence<4>{}); break;
		case 5: call<5>(c->kind, x->in, c->r, c->a, c->voids, std::make_index_sequence<5>{}); break;
		}
		t = x->now();
		h::quiet([&] { c->ce = t; });
		auto done = [x, c](int64_t o) {
			vrt::Quiet q;
			CHECK(++c->calls == 1, "combined promise notified twice");
			c->out = o;
			c->when = ++x->clock;
			vrt::note("combined (kind %d): %lld", c->kind, (long long)o);
			// everything needed must at least have begun
			const uint64_t* b = c->voids ? x->vsb : x->sb;
			if (c->kind == 2 || (c->kind == 1 && o < 0))
				for (int i = 0; i < c->n; i++)
					CHECK(b[i] != UINT64_MAX, "combined promise settled before input %d", i);
		};
		if (c->kind == 2)
			c->a->then([done] { done(1); }, [](const std::exception_ptr&) { vrt::fail("promise_all was rejected"); });
		else
			c->r->then([done](const R& v) { done(v.get()); }, [done](const std::exception_ptr& e) { done(id_of(e)); });
	}
	void settle(Ctx* x, int i, bool v) {
		int64_t o = x->plan[i];
		uint64_t t = x->now();
		h::quiet([&] {
			(v ? x->vsb : x->sb)[i] = t;
			vrt::note("settle input %d%s: %lld", i, v ? " (void)" : "", (long long)o);
		});
		if (v) {
			if (o > 0)
				x->in.v[i].fulfill();
			else
				x->in.v[i].reject<err>(-o);
		} else
			at(x->in, i, [&](auto& p) {
				if (o > 0)
					p.fulfill(typename std::remove_reference_t<decltype(p)>::result_type(o));
				else
					p.template reject<err>(-o);
			});
		t = x->now();
		h::quiet([&] { (v ? x->vse : x->se)[i] = t; });
	}
	// Outcome against the intervals; exact when everything is sequential.
	void verify(Ctx& x, Comb& c) {
		const uint64_t* sb = c.voids ? x.vsb : x.sb;
		const uint64_t* se = c.voids ? x.vse : x.se;
		auto lo = [&](int i) { return std::max(sb[i], c.cb); };
		auto hi = [&](int i) { return std::max(se[i], c.ce); };
		auto settled = [&](int i) { return sb[i] != UINT64_MAX; };
		int64_t o = state(c);
		CHECK(c.calls == (o != 0), "combined promise is %s but its callback ran %d times", o ? "settled" : "pending", c.calls);
		CHECK(o == c.out, "outcome changed from %lld to %lld", (long long)c.out, (long long)o);
		int ns = 0, nf = 0;
		for (int i = 0; i < c.n; i++) {
			ns += settled(i);
			nf += settled(i) && x.plan[i] > 0;
		}
		// i cannot have been notified before j
		auto before = [&](int j, int i) {
			if (se[j] < c.cb && se[i] < c.cb) return j < i;
			return hi(j) < lo(i);
		};
		if (c.kind == 2) {
			CHECK((o == 1) == (ns == c.n), "promise_all is %s with %d of %d inputs settled", o ? "fulfilled" : "pending", ns, c.n);
			return;
		}
		int who = -1;
		for (int i = 0; i < c.n; i++)
			if (settled(i) && x.plan[i] == o) who = i;
		if (o) CHECK(who >= 0, "outcome %lld is not that of any input", (long long)o);
		if (c.kind == 0) {
			CHECK((o != 0) == (ns > 0), "promise_first is %s with %d settled inputs", o ? "settled" : "pending", ns);
			if (o)
				for (int j = 0; j < c.n; j++)
					if (j != who && settled(j)) CHECK(!before(j, who), "promise_first took input %d although input %d settled before", who, j);
		} else {
			if (nf > 0)
				CHECK(o > 0, "promise_first_successful is %s although an input was fulfilled", o ? "rejected" : "pending");
			else
				CHECK((o < 0) == (ns == c.n && c.n > 0), "promise_first_successful is %s with %d of %d inputs rejected", o ? "rejected" : "pending", ns, c.n);
			if (o)
				for (int j = 0; j < c.n; j++) {
					if (j == who || !settled(j) || (x.plan[j] > 0) != (o > 0)) continue;
					if (o > 0) CHECK(!before(j, who), "promise_first_successful took input %d although input %d was fulfilled before", who, j);
					else
						CHECK(!before(who, j), "promise_first_successful reports the error of input %d although input %d failed last", who, j);
				}
		}
	}
	struct Ev {
		int kind; // 0 settle 1 settle void 2 call
		int idx;
	};
	std::vector<Ev> gen(Ctx& x) {
		uint32_t mix = vrt::choose(4);
		for (int i = 0; i < MAXN; i++)
			x.plan[i] = (mix == 1 || (mix != 2 && vrt::flip())) ? -(10 + i) : 10 + i;
		int nc = (int)vrt::range(1, 3);
		std::vector<Ev> evs;
		for (int k = 0; k < nc; k++) {
			auto c = std::make_unique<Comb>();
			c->kind = (int)vrt::choose(3);
			c->n = (int)vrt::range(c->kind == 2 ? 0 : 1, MAXN);
			c->voids = c->kind == 2 && vrt::flip();
			x.combs.push_back(std::move(c));
			evs.push_back({2, k});
		}
		uint32_t missing = vrt::choose(4);
		for (int i = 0; i < MAXN; i++) {
			if (missing != 0 || vrt::chance(3, 4)) evs.push_back({0, i});
			if (missing != 0 || vrt::chance(3, 4)) evs.push_back({1, i});
		}
		// random order
		for (std::size_t i = evs.size(); i > 1; i--)
			std::swap(evs[i - 1], evs[i - 1 - vrt::choose((uint32_t)i)]);
		return evs;
	}
} // namespace
SCENARIO(sequential, 200, vrt::NO_TSAN) {
	Ctx x;
	auto evs = gen(x);
	int before = 0, after = 0;
	bool called = false;
	for (auto& e : evs) {
		if (e.kind == 2) {
			do_call(&x, x.combs[e.idx].get());
			called = true;
		} else {
			settle(&x, e.idx, e.kind == 1);
			(called ? after : before)++;
		}
		for (auto& c : x.combs)
			if (c->cb != UINT64_MAX) verify(x, *c);
	}
	// later settlements change nothing, further attempts fail
	for (auto& c : x.combs)
		if (state(*c) && c->kind != 2) CHECK(!c->r->try_fulfill(Tracked(5)), "combined promise could be settled again");
	if (before && after) vrt::nontrivial();
	for (auto& c : x.combs) {
		if (c->kind == 1 && c->out < 0) vrt::label("all inputs rejected");
		if (c->kind == 2 && c->n == 0) vrt::label("promise_all of nothing");
		vrt::label(c->kind == 0 ? "first" : c->kind == 1 ? "first_successful" : "all");
	}
}
SCENARIO(concurrent, 300) {
	Ctx x;
	auto evs = gen(x);
	int nt = (int)vrt::range(2, 4);
	std::vector<std::vector<Ev>> prog(nt);
	for (auto& e : evs)
		prog[vrt::choose((uint32_t)nt)].push_back(e);
	std::vector<std::vthread> ts;
	for (auto& p : prog)
		ts.emplace_back([&x, &p] {
			for (auto& e : p) {
				if (e.kind == 2) {
					auto* c = x.combs[e.idx].get();
					do_call(&x, c);
					bool must = h::quiet([&] {
						int ns = 0;
						for (int i = 0; i < c->n; i++)
							ns += (c->voids ? x.vse : x.se)[i] < c->cb;
						return c->kind == 0 ? ns > 0 : c->kind == 2 && ns == c->n;
					});
					if (must) CHECK(state(*c) != 0, "combined promise is pending although its inputs were settled before");
				} else
					settle(&x, e.idx, e.kind == 1);
			}
		});
	h::join_all(ts);
	vrt::wait_idle();
	bool race = false;
	for (auto& c : x.combs) {
		verify(x, *c);
		for (int i = 0; i < c->n; i++)
			if (x.sb[i] < c->ce && x.se[i] > c->cb && x.sb[i] != UINT64_MAX) race = true;
	}
	int par = 0;
	for (int i = 0; i < MAXN; i++)
		for (int j = 0; j < i; j++)
			if (x.sb[i] < x.se[j] && x.sb[j] < x.se[i] && x.sb[i] != UINT64_MAX && x.sb[j] != UINT64_MAX) par++;
	if (race) vrt::label("settled while combining");
	if (par) vrt::label("inputs settle concurrently");
	if (race || par) vrt::nontrivial();
}
// Many inputs
namespace {
	template<std::size_t... I>
	void wide(std::index_sequence<I...>) {
		constexpr int N = sizeof...(I);
		using P = asyncpp::promise<R>;
		std::vector<P> in(N);
		int kind = (int)vrt::choose(3), settled = 0;
		std::vector<int> order(N);
		std::iota(order.begin(), order.end(), 0);
		for (int i = N; i > 1; i--)
			std::swap(order[i - 1], order[i - 1 - (int)vrt::choose((uint32_t)i)]);
		int before = vrt::flip() ? 0 : (int)vrt::choose(N + 1);
		// the first successful one in the order of settlement; N: none
		int good = kind == 1 ? vrt::flip() ? N : (int)vrt::choose(N) : N;
		auto settle = [&](int k) {
			settled++;
			int i = order[k];
			if (kind == 1 ? k >= good : i % 3 == 0)
				in[i].fulfill(R(i + 1));
			else
				in[i].template reject<err>(i + 1);
		};
		auto outcome = [&](int k) -> int64_t { return (kind == 1 ? k >= good : order[k] % 3 == 0) ? order[k] + 1 : -(order[k] + 1); };
		for (int k = 0; k < before; k++)
			settle(k);
		std::optional<P> r;
		std::optional<asyncpp::promise<void>> a;
		if (kind == 0)
			r.emplace(asyncpp::promise_first<R>(in[I]...));
		else if (kind == 1)
			r.emplace(asyncpp::promise_first_successful<R>(in[I]...));
		else
			a.emplace(asyncpp::promise_all(in[I]...));
		int64_t want = 0;
		// already settled inputs count from left to right
		if (kind == 0 && before) {
			int l = *std::min_element(order.begin(), order.begin() + before);
			want = l % 3 == 0 ? l + 1 : -(l + 1);
		}
		if (kind == 1 && before > good)
			want = *std::min_element(order.begin() + good, order.begin() + before) + 1;
		else if (kind == 1 && before == N)
			want = -N; // the last one to be looked at
		if (kind == 2 && before == N) want = 1;
		for (int k = before;; k++) {
			int64_t got = 0;
			if (a) {
				auto [v, e] = a->try_get(std::nothrow);
				CHECK(!e, "promise_all was rejected");
				got = (bool)v;
			} else {
				auto [v, e] = r->try_get(std::nothrow);
				got = e ? id_of(e) : v ? v->get() : 0;
			}
			CHECK(got == want, "kind %d: %lld instead of %lld with %d of %d inputs settled", kind, (long long)got, (long long)want, k, N);
			if (k == N) break;
			settle(k);
			if (!want) {
				if (kind == 0) want = outcome(k);
				if (kind == 1 && k >= good) want = outcome(k);
				if (kind == 1 && k == N - 1 && good == N) want = outcome(k);
				if (kind == 2 && k == N - 1) want = 1;
			}
		}
		CHECK(settled == N);
		if (before && before < N) vrt::nontrivial();
	}
}
SCENARIO(many_inputs, 1, vrt::NO_TSAN) { wide(std::make_index_sequence<40>{}); }
