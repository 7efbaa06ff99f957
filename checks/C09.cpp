// C09: ref, atomic_ref, intrusive_refcount
#include "../lib/vrt_shim.h"
#include <asyncpp/ref.h>
#include "../lib/hist.h"
using asyncpp::adopt_ref;
using asyncpp::atomic_ref;
using asyncpp::ref;

namespace {
	constexpr int NR = 4, NA = 2;
	std::vector<int> g_dead_impl, g_dead_model;

	// ---------------------------------------------------------------- sequential differential test against shared_ptr
	template<typename C>
	struct Base : asyncpp::intrusive_refcount<Base<C>, C> {
		using asyncpp::intrusive_refcount<Base<C>, C>::use_count;
		uint32_t cookie = 0xC0FFEE01;
		int id;
		explicit Base(int i) : id(i) {}
		virtual ~Base() {
			if (cookie != 0xC0FFEE01) vrt::fail("object destroyed twice");
			cookie = 0;
			g_dead_impl.push_back(id);
			on_destroy(this);
		}
		static inline std::function<void(Base*)> hook;
		static void on_destroy(Base* b) {
			if (hook) hook(b);
		}
	};
	template<typename C>
	struct Node : Base<C> {
		ref<Base<C>> next, other;
		atomic_ref<Base<C>> at;
		using Base<C>::Base;
	};
	template<typename C>
	struct Leaf : Base<C> {
		// takes a move-only argument and modifies an object of the caller
		Leaf(h::MoveOnly id, int& made) : Base<C>((int)id.get()) { made++; }
	};
	struct MNode {
		int id;
		bool leaf;
		std::shared_ptr<MNode> next, other, at;
		MNode(int i, bool l) : id(i), leaf(l) {}
		~MNode() { g_dead_model.push_back(id); }
	};
	using M = std::shared_ptr<MNode>;

	template<typename C>
	void sequential() {
		using B = Base<C>;
		using N = Node<C>;
		using R = ref<B>;
		using A = atomic_ref<B>;
		g_dead_impl.clear();
		g_dead_model.clear();
		R r[NR];
		M mr[NR];
		A a[NA];
		M ma[NA];
		std::vector<std::pair<B*, M>> stash; // released references
		std::map<int, B*> live;
		std::map<int, std::weak_ptr<MNode>> mlive;
		int next_id = 0, interesting = 0, aliased = 0;
		B::hook = [&](B* b) {
			for (auto& h : r)
				CHECK(h.get() != b, "a handle still refers to an object being destroyed");
			live.erase(b->id);
		};
		struct Slot {
			R* p = nullptr;
			M* m = nullptr;
		};
		struct ASlot {
			A* p = nullptr;
			M* m = nullptr;
		};
		auto slot = [&]() -> Slot {
			int i = (int)vrt::choose(NR);
			Slot s{&r[i], &mr[i]};
			// walk into the object graph
			while (*s.p && vrt::chance(1, 3)) {
				auto* n = dynamic_cast<N*>(s.p->get());
				if (!n) break;
				if (vrt::flip())
					s = {&n->next, &(*s.m)->next};
				else
					s = {&n->other, &(*s.m)->other};
				aliased++;
			}
			return s;
		};
		auto aslot = [&]() -> ASlot {
			if (vrt::chance(1, 3)) {
				Slot s = slot();
				if (*s.p)
					if (auto* n = dynamic_cast<N*>(s.p->get())) return {&n->at, &(*s.m)->at};
			}
			int i = (int)vrt::choose(NA);
			return {&a[i], &ma[i]};
		};
		auto verify = [&] {
			CHECK(g_dead_impl.size() == g_dead_model.size(), "%zu objects were destroyed instead of %zu", g_dead_impl.size(), g_dead_model.size());
			auto x = g_dead_impl, y = g_dead_model;
			std::sort(x.begin(), x.end());
			std::sort(y.begin(), y.end());
			CHECK(x == y, "the wrong object was destroyed");
			auto one = [&](const char* w, B* p, const M& m) {
				CHECK((p != nullptr) == (m != nullptr), "%s refers to %s object", w, p ? "an" : "no");
				if (!p) return;
				CHECK(p->cookie == 0xC0FFEE01 && p->id == m->id, "%s refers to object %d instead of %d", w, p->id, m->id);
				CHECK((long)p->use_count() == m.use_count(), "object %d: use_count is %zu instead of %ld", p->id, p->use_count(), m.use_count());
			};
			for (int i = 0; i < NR; i++) {
				one("ref", r[i].get(), mr[i]);
				CHECK((bool)r[i] == (r[i].get() != nullptr) && !r[i] == (r[i].get() == nullptr));
			}
			for (int i = 0; i < NA; i++) {
				CHECK((bool)a[i] == (ma[i] != nullptr) && !a[i] == (ma[i] == nullptr), "atomic_ref emptiness");
				R t = a[i].load();
				M mt = ma[i];
				one("atomic_ref", t.get(), mt);
			}
			for (auto& [p, m] : stash)
				CHECK(p->cookie == 0xC0FFEE01 && p->id == m->id, "released object was destroyed");
		};
		int n = (int)vrt::range(3, 40);
		for (int k = 0; k < n; k++) {
			Slot s = slot();
			switch (vrt::choose(24)) {
			case 0:
			case 1:
			case 2: {
				int id = next_id++;
				bool leaf = vrt::chance(1, 4);
				vrt::note("make object %d%s", id, leaf ? " (leaf)" : "");
				M m = std::make_shared<MNode>(id, leaf);
				R o;
				if (leaf) {
					int made = 0;
					o = asyncpp::static_ref_cast<B>(asyncpp::make_ref<Leaf<C>>(h::MoveOnly(id), made));
					CHECK(made == 1, "make_ref did not pass its arguments on");
				} else
					o = asyncpp::static_ref_cast<B>(asyncpp::make_ref<N>(id));
				live[id] = o.get();
				mlive[id] = m;
				if (vrt::flip()) { // link behind the old head
					if (auto* nn = dynamic_cast<N*>(o.get())) {
						nn->next = *s.p;
						m->next = *s.m;
					}
				}
				if (vrt::flip()) {
					*s.p = std::move(o);
					*s.m = std::move(m);
				} else {
					*s.p = o;
					*s.m = m;
				}
				break;
			}
			case 3:
			case 4: {
				Slot t = slot();
				vrt::note("copy assign");
				*s.p = *t.p;
				*s.m = *t.m;
				break;
			}
			case 5:
			case 6: {
				Slot t = slot();
				vrt::note("move assign%s", t.p == s.p ? " (self)" : "");
				if (t.p == s.p) { // a self-move keeps a shared owner's target
					R& x = *s.p;
					*s.p = std::move(x);
				} else {
					*s.p = std::move(*t.p);
					*s.m = std::move(*t.m);
				}
				break;
			}
			case 7: // assignment from a reference owned only by the old target
			case 8: {
				auto* nn = dynamic_cast<N*>(s.p->get());
				if (!nn || !nn->next) break;
				interesting++;
				vrt::note("p = p->next");
				if (vrt::flip()) {
					*s.p = nn->next;
					*s.m = M((*s.m)->next);
				} else {
					*s.p = std::move(nn->next);
					M t = std::move((*s.m)->next);
					*s.m = std::move(t);
				}
				break;
			}
			case 9: {
				auto* nn = dynamic_cast<N*>(s.p->get());
				if (!nn || !nn->next) break;
				interesting++;
				vrt::note("p.reset(p->next.get())");
				s.p->reset(nn->next.get());
				*s.m = M((*s.m)->next);
				break;
			}
			case 10:
				vrt::note("reset()");
				s.p->reset();
				s.m->reset();
				break;
			case 11: {
				Slot t = slot();
				vrt::note("reset(ptr)%s", t.p->get() == s.p->get() ? " to the same object" : "");
				s.p->reset(t.p->get());
				*s.m = M(*t.m);
				break;
			}
			case 12:
				if (!*s.p) break;
				vrt::note("release()");
				stash.emplace_back(s.p->release(), std::move(*s.m));
				CHECK(!*s.p, "released handle is not empty");
				break;
			case 13:
				if (stash.empty()) break;
				vrt::note("adopt");
				if (vrt::flip())
					s.p->reset(stash.back().first, adopt_ref);
				else
					*s.p = R(stash.back().first, adopt_ref);
				{
					M m = std::move(stash.back().second);
					stash.pop_back();
					*s.m = std::move(m);
				}
				break;
			case 14: {
				vrt::note("copy/move construct");
				R x(*s.p);
				M mx(*s.m);
				R y(std::move(x));
				M my(std::move(mx));
				CHECK(!x && y.get() == s.p->get(), "move construction");
				R z(s.p->get());
				M mz(*s.m);
				if (y) CHECK((long)y->use_count() == my.use_count(), "use_count of %zu instead of %ld", y->use_count(), my.use_count());
				break;
			}
			case 15: {
				vrt::note("casts");
				auto c1 = asyncpp::dynamic_ref_cast<N>(*s.p);
				bool isn = *s.m && !(*s.m)->leaf;
				CHECK((bool)c1 == isn, "dynamic_ref_cast of %s", isn ? "a node" : "another type");
				R copy(*s.p);
				auto c2 = asyncpp::dynamic_ref_cast<N>(std::move(copy));
				CHECK((bool)c2 == isn && (bool)copy == (*s.p && !isn), "moving dynamic_ref_cast");
				R back = asyncpp::static_ref_cast<B>(std::move(c2));
				CHECK(!c2 && (bool)back == isn);
				auto cc = asyncpp::const_ref_cast<B>(*s.p);
				CHECK(cc == *s.p && cc.get() == s.p->get());
				break;
			}
			case 16: {
				Slot t = slot();
				bool eq = s.m->get() == t.m->get();
				CHECK((*s.p == *t.p) == eq && (*s.p != *t.p) == !eq, "comparison");
				CHECK(((*s.p <=> *t.p) == 0) == eq, "three-way comparison");
				if (eq) CHECK(std::hash<R>{}(*s.p) == std::hash<R>{}(*t.p), "hash of equal refs differs");
				const B *pa = s.p->get(), *pb = t.p->get();
				CHECK((*s.p <=> *t.p) == (std::compare_three_way{}(pa, pb)), "order of refs");
				CHECK((*s.p == pb) == eq && (*s.p != pb) == !eq && (*s.p <=> pb) == std::compare_three_way{}(pa, pb), "comparison with a pointer");
				CHECK((pa == *t.p) == eq && (pa != *t.p) == !eq && (pa <=> *t.p) == std::compare_three_way{}(pa, pb), "comparison with a pointer");
				CHECK((*s.p < *t.p) == std::less<>{}(pa, pb) && (*s.p >= pb) == !std::less<>{}(pa, pb), "order of refs");
				break;
			}
			case 17: {
				ASlot t = aslot();
				vrt::note("atomic store");
				if (vrt::flip())
					t.p->store(*s.p);
				else
					*t.p = *s.p;
				M m = *s.m;
				*t.m = m;
				break;
			}
			case 18: {
				ASlot t = aslot();
				vrt::note("load");
				*s.p = t.p->load();
				*s.m = M(*t.m);
				break;
			}
			case 19: {
				ASlot t = aslot();
				vrt::note("exchange");
				R old = t.p->exchange(*s.p);
				M m = *s.m;
				M mold = std::exchange(*t.m, m);
				CHECK((old ? old->id : -1) == (mold ? mold->id : -1), "exchange returned object %d instead of %d", old ? old->id : -1, mold ? mold->id : -1);
				break;
			}
			case 20: {
				ASlot t = aslot(), u = aslot();
				uint32_t how = vrt::choose(4);
				vrt::note("atomic_ref to atomic_ref %u%s", how, t.p == u.p ? " (self)" : "");
				M m = *u.m;
				if (how == 0)
					*t.p = *u.p;
				else if (how == 1) {
					*t.p = std::move(*u.p);
					if (t.p != u.p) {
						M gone = std::move(*u.m);
					}
				} else if (how == 2)
					t.p->store(*u.p);
				else
					(void)t.p->exchange(*u.p);
				*t.m = m;
				bool eq = t.m->get() == u.m->get();
				(void)eq;
				break;
			}
			case 21: {
				ASlot t = aslot();
				if (vrt::flip()) {
					vrt::note("atomic reset");
					t.p->reset();
					t.m->reset();
				} else if (*t.m) {
					vrt::note("atomic release");
					stash.emplace_back(t.p->release(), std::move(*t.m));
				}
				break;
			}
			case 22: {
				ASlot t = aslot(), u = aslot();
				bool eq = t.m->get() == u.m->get();
				CHECK((*t.p == *u.p) == eq && (*t.p != *u.p) == !eq, "atomic comparison");
				const B* pu = u.p->load().get();
				const B* pt = t.p->load().get();
				CHECK((*t.p == pu) == eq && (*t.p != pu) == !eq && (pt == *u.p) == eq && (pt != *u.p) == !eq, "atomic comparison with a pointer");
				auto order = reinterpret_cast<uintptr_t>(pt) <=> reinterpret_cast<uintptr_t>(pu);
				CHECK((*t.p <=> *u.p) == order && (*t.p <=> pu) == order && (pt <=> *u.p) == order, "order of atomic refs");
				if (eq) CHECK(std::hash<A>{}(*t.p) == std::hash<A>{}(*u.p));
				if (*t.m) CHECK((*t.p)->id == (*t.m)->id, "operator->");
				break;
			}
			case 23: {
				ASlot t = aslot();
				vrt::note("atomic move store");
				R tmp(*s.p);
				M m(*s.m);
				*t.p = std::move(tmp);
				CHECK(!tmp, "moved-from ref is not empty");
				*t.m = m;
				break;
			}
			}
			verify();
		}
		// Tear down in a random order
		while (!stash.empty()) {
			R x(stash.back().first, adopt_ref);
			stash.pop_back();
		}
		for (int i = 0; i < NR; i++)
			r[i].reset(), mr[i].reset();
		for (int i = 0; i < NA; i++)
			a[i].reset(), ma[i].reset();
		verify();
		// cycles keep themselves alive: cut them open
		if (!live.empty()) {
			vrt::label("cycle");
			std::vector<std::pair<R, M>> hold;
			for (auto& [id, p] : live) {
				hold.emplace_back(R(p), mlive[id].lock());
				CHECK(hold.back().second, "object %d should have been destroyed", id);
			}
			for (auto& [hr, hm] : hold) {
				if (auto* nn = dynamic_cast<N*>(hr.get())) {
					nn->next.reset(), nn->other.reset(), nn->at.reset();
					hm->next.reset(), hm->other.reset(), hm->at.reset();
				}
			}
		}
		verify();
		CHECK((int)g_dead_impl.size() == next_id, "%d of %d objects were destroyed", (int)g_dead_impl.size(), next_id);
		B::hook = nullptr;
		if (interesting && next_id > 2) vrt::nontrivial();
		if (aliased) vrt::label("handles inside objects");
		g_dead_impl.clear();
		g_dead_model.clear();
		g_dead_impl.shrink_to_fit();
		g_dead_model.shrink_to_fit();
	}

	// ---------------------------------------------------------------- concurrent
	template<typename Count, int Kind>
	struct BasicObj : asyncpp::intrusive_refcount<BasicObj<Count, Kind>, Count> {
		using asyncpp::intrusive_refcount<BasicObj, Count>::use_count;
		int id;
		int64_t init;
		int64_t by[8] = {}; // plain data written through references, read by the destructor
		explicit BasicObj(int i) : id(i), init(i * 7) { h::quiet([&] { live()++; }); }
		static int& live() {
			static int l = 0;
			return l;
		}
		~BasicObj() {
			int64_t s = init;
			for (auto x : by)
				s += x;
			CHECK(init == id * 7 && s >= init, "object state is inconsistent");
			init = -1;
			h::quiet([&] { live()--; });
		}
	};
	using CObj = BasicObj<asyncpp::thread_safe_refcount, 0>;
	using PObj = BasicObj<asyncpp::thread_unsafe_refcount, 1>;
	enum K { LOAD, XCHG, STORE };
	struct Op {
		K k;
		int a = -1, b = -1; // a: value written, b: value seen
	};
	struct Model {
		int v = -1;
		bool final_ok() const { return true; }
		std::string key() const { return std::to_string(v); }
		void apply(const Op& o, std::vector<Model>& out) const {
			Model m = *this;
			if (o.k != STORE && o.b != v) return;
			if (o.k != LOAD) m.v = o.a;
			out.push_back(m);
		}
	};
	struct CStep {
		int kind, x, y;
	};
} // namespace
SCENARIO(sequential_atomic_counter, 300, vrt::NO_TSAN) { sequential<asyncpp::thread_safe_refcount>(); }
SCENARIO(sequential_plain_counter, 200, vrt::NO_TSAN) { sequential<asyncpp::thread_unsafe_refcount>(); }
SCENARIO(concurrent, 500) {
	int nt = (int)vrt::range(2, 4), na = (int)vrt::range(1, 2), total = 0;
	std::vector<std::vector<CStep>> prog(nt);
	for (auto& p : prog) {
		int n = (int)vrt::range(1, 8);
		for (int i = 0; i < n && total < 24; i++, total++)
			p.push_back({(int)vrt::choose(10), (int)vrt::choose(3), (int)vrt::choose((uint32_t)na)});
	}
	h::Hist<Model, Op> hist[2];
	int init[2];
	int next_id = 0, contended = 0;
	{
		atomic_ref<CObj> at[2];
		std::vector<ref<CObj>> start;
		for (int i = 0; i < 2; i++)
			start.push_back(asyncpp::make_ref<CObj>(next_id++));
		for (int i = 0; i < na; i++) {
			init[i] = -1;
			if (vrt::flip()) {
				at[i] = start[i];
				init[i] = start[i]->id;
			}
		}
		bool drop = vrt::flip();
		std::vector<std::vthread> ts;
		int ti = 0;
		for (auto& p : prog) {
			std::vector<ref<CObj>> mine(3);
			mine[0] = start[0];
			mine[1] = start[1];
			ts.emplace_back([&, ti, mine = std::move(mine)]() mutable {
				auto touch = [&](ref<CObj>& r) {
					if (!r) return;
					CHECK(r->init == r->id * 7, "object used after destruction");
					r->by[ti]++;
				};
				for (auto& s : p) {
					auto& r = mine[s.x];
					auto& a = at[s.y];
					auto& H = hist[s.y];
					switch (s.kind) {
					case 0: {
						int id = h::quiet([&] { return next_id++; });
						r = asyncpp::make_ref<CObj>(id);
						touch(r);
						break;
					}
					case 1: r = mine[(s.x + 1) % 3]; break;
					case 2: r.reset(); break;
					case 3: r = std::move(mine[(s.x + 1) % 3]); break;
					case 4:
					case 5: {
						auto i = H.begin({LOAD});
						r = a.load();
						touch(r);
						H.end(i, [&](Op& o) { o.b = r ? r->id : -1; });
						break;
					}
					case 6: {
						auto i = H.begin({STORE, r ? r->id : -1});
						a.store(r);
						H.end(i);
						break;
					}
					case 7: {
						auto i = H.begin({XCHG, r ? r->id : -1});
						r = a.exchange(std::move(r));
						touch(r);
						H.end(i, [&](Op& o) { o.b = r ? r->id : -1; });
						break;
					}
					case 8: {
						auto i = H.begin({STORE, -1});
						a.reset();
						H.end(i);
						break;
					}
					case 9: {
						auto i = H.begin({XCHG, -1});
						ref<CObj> t(a.release(), adopt_ref);
						touch(t);
						H.end(i, [&](Op& o) { o.b = t ? t->id : -1; });
						break;
					}
					}
					h::quiet([&] { contended++; });
					touch(r);
				}
			});
			ti++;
		}
		if (drop) start.clear();
		h::join_all(ts);
		start.clear();
		// every remaining reference is one of the atomic ones
		for (int i = 0; i < na; i++) {
			auto k = hist[i].begin({LOAD});
			auto r = at[i].load();
			hist[i].end(k, [&](Op& o) { o.b = r ? r->id : -1; });
			if (r) {
				std::size_t expect = 1;
				for (int j = 0; j < na; j++)
					expect += at[j].load() == r;
				CHECK(r->use_count() == expect, "use_count is %zu with %zu references", r->use_count(), expect);
			}
		}
	}
	CHECK(CObj::live() == 0, "%d object(s) never destroyed", CObj::live());
	for (int i = 0; i < na; i++) {
		Model m;
		m.v = init[i];
		hist[i].verify(m, "atomic_ref does not behave like one atomic cell");
	}
	if (total > 5) vrt::nontrivial();
}
// Pointers that collide with the lock bit are refused without touching any count.
namespace {
	struct Odd {};
	std::map<uintptr_t, int> g_counts;
	inline void refcounted_add_ref(const Odd* p) { g_counts[(uintptr_t)p]++; }
	inline void refcounted_remove_ref(const Odd* p) {
		if (--g_counts[(uintptr_t)p] < 0) vrt::fail("reference removed twice");
	}
} // namespace
SCENARIO(foreign_counter, 100, vrt::NO_TSAN) {
	g_counts.clear();
	{
		atomic_ref<Odd> a;
		uintptr_t cur = 0;
		int n = (int)vrt::range(1, 10), bad = 0;
		for (int i = 0; i < n; i++) {
			uintptr_t v = (uintptr_t)(vrt::choose(4) * 8);
			if (vrt::flip()) v |= uintptr_t(1) << 63;
			ref<Odd> r((Odd*)v);
			if (v) CHECK(g_counts[v] == 1 + (cur == v), "ref did not count");
			bool thrown = false;
			uint32_t how = vrt::choose(4);
			vrt::note("store %llx how %u", (unsigned long long)v, how);
			try {
				if (how == 0)
					a.store(r);
				else if (how == 1)
					(void)a.exchange(r);
				else if (how == 2)
					a = r;
				else {
					atomic_ref<Odd> b(r);
					a = b;
				}
			} catch (const std::logic_error&) { thrown = true; }
			CHECK(thrown == (bool)(v >> 63), "pointer with the highest bit set %s", thrown ? "refused" : "accepted");
			if (!thrown) cur = v;
			bad += thrown;
			r.reset();
			for (auto& [p, c] : g_counts)
				if (p) CHECK(c == (p == cur), "count of %llx is %d", (unsigned long long)p, c);
		}
		if (bad && n > 2) vrt::nontrivial();
	}
	for (auto& [p, c] : g_counts)
		CHECK(c == 0, "references leaked");
	g_counts.clear();
}
// Many references to one object
template<typename Obj>
static void many() {
	int n = h::bulk();
	auto first = asyncpp::make_ref<Obj>(1);
	Obj* raw = first.get();
	std::vector<ref<Obj>> refs;
	std::vector<atomic_ref<Obj>> at((std::size_t)vrt::range(1, 40));
	std::size_t extra = 0;
	for (auto& x : at)
		if (vrt::flip()) {
			x = first;
			extra++;
		}
	int step = n / (int)vrt::range(1, 50) + 1;
	for (int i = 0; i < n; i++) {
		refs.push_back(vrt::flip() ? refs.empty() ? first : refs.back() : ref<Obj>(raw));
		if (i % step == 0) CHECK(raw->use_count() == refs.size() + 1 + extra, "use_count is %zu with %zu references", raw->use_count(), refs.size() + 1 + extra);
	}
	CHECK(raw->use_count() == refs.size() + 1 + extra, "use_count is %zu with %zu references", raw->use_count(), refs.size() + 1 + extra);
	first.reset();
	for (auto& x : at)
		x.reset();
	while (!refs.empty()) {
		CHECK(Obj::live() == 1, "destroyed with %zu references left", refs.size());
		if (refs.size() % (std::size_t)step == 0) CHECK(raw->use_count() == refs.size(), "use_count is %zu with %zu references", raw->use_count(), refs.size());
		refs.pop_back();
	}
	CHECK(Obj::live() == 0, "not destroyed without references");
	if (n > 20) vrt::nontrivial();
}
SCENARIO(many_references, 1, vrt::NO_TSAN) {
	if (vrt::flip())
		many<CObj>();
	else
		many<PObj>();
}
