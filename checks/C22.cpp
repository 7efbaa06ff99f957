// C22: allocators of coroutine frames
#include "../lib/vrt_shim.h"
#include <asyncpp/async_generator.h>
#include <asyncpp/dispatcher.h>
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/generator.h>
#include <asyncpp/launch.h>
#include <asyncpp/policy.h>
#include <asyncpp/task.h>
#include <memory_resource>
#include "../lib/helpers.h"
using h::Tracked;

namespace {
	// ------------------------------------------------------------ memory
	struct Arena {
		std::map<void*, std::pair<std::size_t, void*>> live; // pointer -> size, start of the block
		int allocations = 0, fail_at = 0;
		unsigned misalign = 0;
		std::byte* take(std::size_t n, bool aligned = false) {
			if (++allocations == fail_at) throw std::bad_alloc();
			unsigned off = aligned ? 0 : misalign;
			auto block = static_cast<std::byte*>(std::malloc(n + off));
			auto p = block + off;
			std::memset(p, 0xd7, n);
			live[p] = {n, block};
			return p;
		}
		void give(void* p, std::size_t n) {
			auto it = live.find(p);
			CHECK(it != live.end(), "memory that does not belong to the allocator was returned to it");
			CHECK(it->second.first == n, "%zu bytes were allocated, but %zu returned", it->second.first, n);
			std::memset(p, 0x5a, n);
			std::free(it->second.second);
			live.erase(it);
		}
		std::size_t bytes() const {
			std::size_t r = 0;
			for (auto& [p, b] : live)
				r += b.first;
			return r;
		}
	};
	constexpr int nr_arenas = 3;
	Arena arenas[nr_arenas];
	std::set<const void*> alloc_objects; // allocator objects that exist

	template<std::size_t Size, std::size_t Align>
	struct alignas(Align) State {
		using value_type = std::byte;
		using is_always_equal = std::false_type;
		std::uint8_t arena;
		std::byte pad[Size > 1 ? Size - 1 : 1];
		explicit State(int a) : arena(a) { add(); }
		State(const State& o) : arena((o.check(), o.arena)) { add(); }
		State(State&& o) noexcept : arena((o.check(), o.arena)) { add(); }
		State& operator=(const State&) = delete;
		~State() {
			check();
			alloc_objects.erase(this);
			arena = 0xee;
		}
		void add() {
			std::memset(pad, arena, sizeof(pad));
			CHECK((std::uintptr_t)this % Align == 0, "an allocator was constructed at a misaligned address");
			CHECK(alloc_objects.insert(this).second, "an allocator was constructed where one already exists");
		}
		void check() const {
			CHECK(alloc_objects.count(this), "use of an allocator that does not exist");
			CHECK((int)pad[0] == arena && (int)pad[sizeof(pad) - 1] == arena, "an allocator was overwritten");
		}
		std::byte* allocate(std::size_t n) {
			check();
			return arenas[arena].take(n);
		}
		void deallocate(std::byte* p, std::size_t n) {
			check();
			arenas[arena].give(p, n);
		}
		friend bool operator==(const State& a, const State& b) { return a.arena == b.arena; }
	};
	template<>
	struct State<1, 1> { // nothing but the arena
		using value_type = std::byte;
		using is_always_equal = std::false_type;
		std::uint8_t arena;
		explicit State(int a) : arena(a) { alloc_objects.insert(this); }
		State(const State& o) : arena((o.check(), o.arena)) { CHECK(alloc_objects.insert(this).second); }
		State& operator=(const State&) = delete;
		~State() {
			check();
			alloc_objects.erase(this);
		}
		void check() const { CHECK(alloc_objects.count(this), "use of an allocator that does not exist"); }
		std::byte* allocate(std::size_t n) { return check(), arenas[arena].take(n); }
		void deallocate(std::byte* p, std::size_t n) { check(), arenas[arena].give(p, n); }
		friend bool operator==(const State& a, const State& b) { return a.arena == b.arena; }
	};
	static_assert(sizeof(State<1, 1>) == 1);
	// made from a reference to something else, like the one in the tests
	struct Ref {
		using value_type = std::byte;
		Arena& parent;
		Ref(Arena& a) : parent(a) {}
		std::byte* allocate(std::size_t n) { return parent.take(n); }
		void deallocate(std::byte* p, std::size_t n) { parent.give(p, n); }
	};
	struct Stateless {
		using value_type = std::byte;
		std::byte* allocate(std::size_t n) { return arenas[0].take(n, true); }
		void deallocate(std::byte* p, std::size_t n) { arenas[0].give(p, n); }
		friend bool operator==(const Stateless&, const Stateless&) { return true; }
	};
	struct Resource : std::pmr::memory_resource {
		int i;
		explicit Resource(int i) : i(i) {}
		void* do_allocate(std::size_t n, std::size_t align) override { return arenas[i].take(n, align > 1); }
		void do_deallocate(void* p, std::size_t n, std::size_t) override { arenas[i].give(p, n); }
		bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
	};
	Resource resources[nr_arenas] = {Resource(0), Resource(1), Resource(2)};
	using Pmr = std::pmr::polymorphic_allocator<std::byte>;
	template<typename A>
	A make_alloc(int i) {
		if constexpr (std::is_same_v<A, Stateless>)
			return {};
		else if constexpr (std::is_same_v<A, Ref>)
			return arenas[i];
		else if constexpr (std::is_same_v<A, Pmr>)
			return &resources[i];
		else
			return A(i);
	}

	// ------------------------------------------------------------ coroutines
	struct Boom {
		int64_t v;
	};
	struct Plan {
		int steps = 0;
		bool throws = false;
		std::coroutine_handle<> slot{};
		int at = 0;
		bool done = false;
		int locals = 0; // alive
	};
	template<typename T>
	void aligned(const T& v) {
		const T* p = &v;
		asm volatile("" : "+r"(p));
		CHECK((std::uintptr_t)p % alignof(T) == 0, "a local with alignment %zu is at %p", alignof(T), (const void*)p);
	}
	struct alignas(16) Wide {
		long double l;
		char name[48];
		Plan* p;
		explicit Wide(Plan* p) : l(1), p(p) {
			p->locals++;
			std::memset(name, 7, sizeof(name));
		}
		Wide(const Wide&) = delete;
		~Wide() {
			aligned(*this);
			CHECK(l == 1 && name[0] == 7 && name[47] == 7, "a local was overwritten");
			p->locals--;
		}
	};
	struct Small {
		Plan* p;
		std::int8_t x = 3;
		explicit Small(Plan* p) : p(p) { p->locals++; }
		Small(const Small&) = delete;
		~Small() {
			CHECK(x == 3, "a local was overwritten");
			p->locals--;
		}
	};
	template<typename L, typename A>
	struct Make {
		using task = asyncpp::task<int64_t, A>;
		using vtask = asyncpp::task<void, A>;
		using gen = asyncpp::generator<int64_t, A>;
		using agen = asyncpp::async_generator<Tracked, A>;
		using ff = asyncpp::fire_and_forget_task<A>;
		using eff = asyncpp::eager_fire_and_forget_task<A>;
		// parameters of different size move the rest of the frame around
		static task by_value(Plan* p, Tracked t, A) {
			L l(p);
			for (; p->at < p->steps; p->at++) {
				aligned(l);
				co_await h::manual{&p->slot};
			}
			p->done = true;
			if (p->throws) throw Boom{t.get()};
			co_return t.get();
		}
		static task by_ref(Plan* p, char c, Tracked t, const A&) {
			__m128i v = _mm_set1_epi8(c);
			L l(p);
			for (; p->at < p->steps; p->at++) {
				co_await h::manual{&p->slot};
				aligned(v);
			}
			CHECK(_mm_cvtsi128_si32(v) == 0x01010101 * c, "a local was overwritten");
			p->done = true;
			if (p->throws) throw Boom{t.get()};
			co_return t.get();
		}
		struct Object {
			Tracked t;
			vtask member(Plan* p, int64_t* out, A&&) {
				L l(p);
				for (; p->at < p->steps; p->at++)
					co_await h::manual{&p->slot};
				aligned(l);
				p->done = true;
				if (p->throws) throw Boom{t.get()};
				*out = t.get();
			}
		};
		static gen generate(Plan* p, Tracked t, const A&) {
			L l(p);
			for (; p->at < p->steps; p->at++) {
				aligned(l);
				co_yield p->at + t.get();
			}
			p->done = true;
			if (p->throws) throw Boom{t.get()};
		}
		static agen agenerate(Plan* p, Tracked t, A) {
			L l(p);
			for (; p->at < p->steps; p->at++) {
				aligned(l);
				if (p->at % 2) co_await h::manual{&p->slot};
				co_yield Tracked(p->at + t.get());
			}
			p->done = true;
			if (p->throws) throw Boom{t.get()};
		}
		template<typename FF>
		static FF forget(Plan* p, Tracked t, const A&) {
			co_await asyncpp::exception_policy::handle([p]() {
				try {
					throw;
				} catch (const Boom& b) { CHECK(b.v == 6 && p->throws); }
			});
			L l(p);
			for (; p->at < p->steps; p->at++) {
				co_await h::manual{&p->slot};
				aligned(l);
			}
			p->done = true;
			if (p->throws) throw Boom{t.get()};
		}
	};
	// drives something that is awaited
	struct drv {
		struct promise_type {
			drv get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_always initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { vrt::fail("unexpected exception"); }
		};
		std::coroutine_handle<promise_type> hd;
	};
	template<typename T>
	drv await_task(T t, Plan* p, int64_t* out) {
		try {
			if constexpr (std::is_void_v<decltype(std::declval<T&>().operator co_await().await_resume())>)
				co_await t;
			else
				*out = co_await t;
			CHECK(!p->throws, "the exception got lost");
		} catch (const Boom& b) { *out = b.v; }
		CHECK(*out == 6, "the result got lost");
	}
	template<typename G>
	drv consume(G g, Plan* p) {
		try {
			int64_t n = 0;
			auto it = co_await g.begin();
			while (it != g.end()) {
				CHECK((*it).get() == 6 + n++, "wrong element");
				auto next = ++it;
				co_await next;
			}
			CHECK(!p->throws, "the exception got lost");
		} catch (const Boom& b) { CHECK(b.v == 6); }
	}
	struct LaunchAw {
		Plan* p;
		Tracked t{6};
		bool await_ready() { return p->steps == 0; }
		void await_suspend(std::coroutine_handle<> hd) { p->slot = hd; }
		void await_resume() {
			t.check();
			p->at = p->steps;
			p->done = true;
		}
	};

	struct Item {
		int arena = 0;
		Plan p;
		virtual ~Item() = default;
		virtual bool step() = 0;		// false: nothing left to do
		virtual void abandon() = 0;		// let go of it in the middle
		virtual bool can_abandon() { return true; }
		virtual bool frame() = 0; // does it still exist
	};
	template<typename F>
	struct DrvItem : Item {
		drv d{};
		F f;
		int64_t out = 0;
		explicit DrvItem(F f) : f(std::move(f)) {}
		bool created = false;
		void create() {
			d = f(this);
			created = true;
		}
		bool step() override {
			if (d.hd.done()) return false;
			if (p.slot)
				std::exchange(p.slot, {}).resume();
			else
				d.hd.resume();
			return true;
		}
		void abandon() override {
			if (d.hd) std::exchange(d.hd, {}).destroy();
		}
		bool frame() override { return (bool)d.hd; }
		~DrvItem() { abandon(); }
	};
	template<typename M>
	struct GenItem : Item {
		std::optional<typename M::gen> g;
		std::optional<typename M::gen::iterator> it;
		int n = 0;
		bool over = false;
		bool step() override {
			if (over) return false;
			try {
				if (!it)
					it.emplace(g->begin());
				else
					++*it;
				if (*it == g->end()) {
					CHECK(!p.throws && n == p.steps);
					over = true;
				} else
					CHECK(**it == 6 + n++);
			} catch (const Boom& b) {
				CHECK(p.throws && b.v == 6 && n == p.steps);
				over = true;
			}
			return true;
		}
		void abandon() override {
			it.reset();
			g.reset();
		}
		bool frame() override { return g.has_value(); }
	};
	template<typename FF>
	struct FFItem : Item {
		std::optional<FF> t;
		bool started = false;
		bool step() override {
			if (p.done) return false;
			if (!started) {
				started = true;
				if constexpr (requires { t->start(); }) {
					t->start();
					return true;
				}
			}
			if (p.slot) std::exchange(p.slot, {}).resume();
			return true;
		}
		bool can_abandon() override { return t.has_value(); }
		void abandon() override { t.reset(); }
		bool frame() override {
			if constexpr (!requires { t->start(); }) return t.has_value() || !p.done; // eager
			return started ? !p.done : t.has_value();
		}
	};
	struct LaunchItem : Item {
		bool step() override {
			if (p.done) return false;
			std::exchange(p.slot, {}).resume();
			return true;
		}
		bool can_abandon() override { return false; }
		void abandon() override {}
		bool frame() override { return !p.done; }
	};

	template<typename L, typename A>
	void run() {
		using M = Make<L, A>;
		alloc_objects.clear();
		for (auto& a : arenas) {
			a = Arena{};
			a.misalign = vrt::flip() ? vrt::choose(16) : 0;
		}
		if constexpr (alignof(A) > 1 && std::is_same_v<A, Ref>) (void)0;
		const A allocs[nr_arenas] = {make_alloc<A>(0), make_alloc<A>(1), make_alloc<A>(2)};
		auto outside = alloc_objects;
		std::vector<std::unique_ptr<Item>> items;
		asyncpp::async_launch_scope scope;
		typename M::Object object{Tracked(6)};
		int refused = 0, early = 0, nr = 0;
		auto verify = [&](const char* when) {
			std::size_t expected[nr_arenas] = {};
			for (auto& i : items) {
				if (i->frame()) expected[i->arena]++;
				if (!i->frame()) CHECK(i->p.locals == 0, "locals survived their coroutine");
			}
			for (int i = 0; i < nr_arenas; i++)
				CHECK(arenas[i].live.size() == expected[i], "%s: %zu frames of allocator %d exist instead of %zu", when, arenas[i].live.size(), i, expected[i]);
		};
		int n = vrt::range(1, 14);
		for (int i = 0; i < n; i++) {
			int act = items.empty() ? 0 : vrt::choose(5);
			if (act <= 1) {
				int kind = vrt::choose(9), a = std::is_same_v<A, Stateless> ? 0 : vrt::choose(nr_arenas);
				vrt::note("create kind %d from allocator %d", kind, a);
				if (vrt::chance(1, 10)) arenas[a].fail_at = arenas[a].allocations + 1;
				bool will_fail = arenas[a].fail_at > 0;
				Plan p;
				p.steps = vrt::choose(4);
				p.throws = vrt::chance(1, 3);
				const A& al = allocs[a];
				std::unique_ptr<Item> item;
				auto prep = [&](auto x) {
					x->p = p;
					x->arena = a;
					return x;
				};
				auto drive = [&](auto f) {
					auto x = prep(std::make_unique<DrvItem<decltype(f)>>(std::move(f)));
					auto& y = *x;
					item = std::move(x);
					y.create();
				};
				bool failed = false;
				try {
					switch (kind) {
					case 0: drive([al](auto* s) { return await_task(M::by_value(&s->p, Tracked(6), al), &s->p, &s->out); }); break;
					case 1: drive([al](auto* s) { return await_task(M::by_ref(&s->p, 3, Tracked(6), al), &s->p, &s->out); }); break;
					case 2: drive([al, &object](auto* s) { return await_task(object.member(&s->p, &s->out, A(al)), &s->p, &s->out); }); break;
					case 3: drive([al](auto* s) { return consume(M::agenerate(&s->p, Tracked(6), al), &s->p); }); break;
					case 4: {
						auto x = prep(std::make_unique<GenItem<M>>());
						x->g.emplace(M::generate(&x->p, Tracked(6), al));
						item = std::move(x);
						break;
					}
					case 5: {
						auto x = prep(std::make_unique<FFItem<typename M::ff>>());
						x->t.emplace(M::template forget<typename M::ff>(&x->p, Tracked(6), al));
						item = std::move(x);
						break;
					}
					case 6: {
						auto x = prep(std::make_unique<FFItem<typename M::eff>>());
						x->started = true;
						x->t.emplace(M::template forget<typename M::eff>(&x->p, Tracked(6), al));
						item = std::move(x);
						break;
					}
					case 7: {
						auto x = prep(std::make_unique<LaunchItem>());
						if (vrt::flip())
							asyncpp::launch(LaunchAw{&x->p}, al);
						else
							scope.launch(LaunchAw{&x->p}, al);
						item = std::move(x);
						break;
					}
					default: {
						auto x = prep(std::make_unique<LaunchItem>());
						scope.invoke_tuple([c = Tracked(1)](Plan* p, Tracked t) { return t.check(), c.check(), LaunchAw{p}; },
										   std::tuple<Plan*, Tracked>(&x->p, Tracked(4)), al);
						item = std::move(x);
					}
					}
				} catch (const std::bad_alloc&) { failed = true; }
				arenas[a].fail_at = 0;
				CHECK(failed == will_fail, "allocation failure was %s", failed ? "invented" : "ignored");
				if (failed) {
					refused++;
					item.reset();
				} else {
					nr++;
					items.push_back(std::move(item));
				}
				verify("after creating a coroutine");
			} else {
				int k = vrt::choose((uint32_t)items.size());
				auto& x = *items[k];
				if (act < 4) {
					vrt::note("step %d", k);
					x.step();
				} else if (x.can_abandon()) {
					vrt::note("abandon %d", k);
					if (!x.p.done) early++;
					x.abandon();
					if (!x.frame() || x.p.done) items.erase(items.begin() + k);
				}
				verify("after a step");
			}
		}
		if (nr >= 2) vrt::nontrivial();
		if (refused) vrt::label("allocation failures");
		if (early) vrt::label("destroyed early");
		// the wait for the scope is a coroutine as well
		if constexpr (!std::is_same_v<A, Ref>) {
			bool idle = scope.all_done();
			auto before = arenas[nr_arenas - 1].live.size(), before0 = arenas[0].live.size();
			auto fut = scope.join_future(allocs[nr_arenas - 1]);
			auto& ar = arenas[std::is_same_v<A, Stateless> ? 0 : nr_arenas - 1];
			CHECK(ar.live.size() == (std::is_same_v<A, Stateless> ? before0 : before) + !idle, "join_future() did not use the allocator");
			for (auto& i : items)
				if (!i->can_abandon())
					while (i->frame())
						i->step();
			CHECK(scope.all_done() && fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready);
		}
		for (auto& i : items)
			if (!i->can_abandon())
				while (i->frame())
					i->step();
		while (!items.empty()) {
			items.back()->abandon();
			while (items.back()->frame())
				items.back()->step();
			items.pop_back();
		}
		for (auto& a : arenas)
			CHECK(a.live.empty(), "%zu frames were never released", a.live.size());
		CHECK(alloc_objects == outside, "%d allocator objects were never destroyed", (int)alloc_objects.size() - (int)outside.size());
		for (auto& a : arenas)
			a.live.clear();
	}
	template<typename A>
	void run_local() {
		if (vrt::flip())
			run<Wide, A>();
		else
			run<Small, A>();
	}
} // namespace

SCENARIO(stateful_allocators, 60, vrt::NO_TSAN) {
	switch (vrt::choose(6)) {
	case 0: run_local<State<8, 8>>(); break;
	case 1: run_local<State<1, 1>>(); break;
	case 2: run_local<State<16, 16>>(); break;
	case 3: run_local<State<24, 4>>(); break;
	case 4: run_local<State<61, 32>>(); break;
	default: run_local<State<3, 1>>(); break;
	}
	alloc_objects.clear();
}
SCENARIO(other_allocators, 40, vrt::NO_TSAN) {
	switch (vrt::choose(3)) {
	case 0: run_local<Pmr>(); break;
	case 1: run_local<Ref>(); break;
	default: run_local<Stateless>(); break;
	}
}
