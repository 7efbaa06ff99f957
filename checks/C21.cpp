// C21: pointer tagging and scope guards
#include "../lib/vrt_shim.h"
#include <asyncpp/ptr_tag.h>
#include <asyncpp/scope_guard.h>
#include <asyncpp/dispatcher.h>
#include "../lib/helpers.h"
using h::Tracked;

namespace {
	// ------------------------------------------------------------ tags
	template<std::size_t A>
	struct alignas(A) Aligned {
		std::byte data[A];
	};
	enum class Tag8 : std::uint8_t {};
	enum class TagI : int {};
	enum class Tag64 : std::uint64_t {};
	constexpr std::size_t ids[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128};
	constexpr std::size_t max_id = sizeof(ids) / sizeof(ids[0]);
	using Fn = void* (*)(void*);
	using CFn = const void* (*)(const void*);
	template<auto Id, typename T>
	constexpr bool taggable = requires(T* p) { asyncpp::ptr_tag<Id>(p); };
	template<std::size_t Id, typename T>
	Fn tag_fn() {
		if constexpr (taggable<Id, T>) {
			return [](void* p) -> void* { return asyncpp::ptr_tag<Id>(static_cast<T*>(p)); };
		} else
			return nullptr;
	}
	template<std::size_t Id, typename T>
	CFn ctag_fn() {
		if constexpr (taggable<Id, const T>) {
			static_assert(std::is_same_v<decltype(asyncpp::ptr_tag<Id>(std::declval<const T*>())), const void*>);
			return [](const void* p) -> const void* { return asyncpp::ptr_tag<Id>(static_cast<const T*>(p)); };
		} else
			return nullptr;
	}
	// an id that does not fit fails to compile in the enum flavour, so only those that fit are instantiated
	template<typename E, std::size_t Id, typename T>
	Fn etag_fn() {
		if constexpr (Id < alignof(T))
			return [](void* p) -> void* { return asyncpp::ptr_tag<static_cast<E>(Id)>(static_cast<T*>(p)); };
		else
			return nullptr;
	}
	template<typename E, std::size_t Id, typename T>
	CFn cetag_fn() {
		if constexpr (Id < alignof(T))
			return [](const void* p) -> const void* { return asyncpp::ptr_tag<static_cast<E>(Id)>(static_cast<const T*>(p)); };
		else
			return nullptr;
	}
	struct Table {
		std::size_t align;
		Fn tag[max_id], etag[3][max_id];
		CFn ctag[max_id], cetag[3][max_id];
		std::pair<void*, std::size_t> (*untag)(void*);
		std::pair<const void*, std::size_t> (*cuntag)(const void*);
		std::pair<void*, std::size_t> (*euntag[3])(void*);
		std::pair<const void*, std::size_t> (*ceuntag[3])(const void*);
		std::size_t (*get)(const void*);
	};
	template<typename T, typename E>
	void fill_enum(Table& t, int k) {
		[&]<std::size_t... I>(std::index_sequence<I...>) {
			((t.etag[k][I] = etag_fn<E, ids[I], T>(), t.cetag[k][I] = cetag_fn<E, ids[I], T>()), ...);
		}(std::make_index_sequence<max_id>{});
		t.euntag[k] = [](void* p) {
			std::pair<T*, E> r = asyncpp::ptr_untag<T, E>(p);
			return std::pair<void*, std::size_t>{r.first, (std::size_t)r.second};
		};
		t.ceuntag[k] = [](const void* p) {
			std::pair<const T*, E> r = asyncpp::ptr_untag<T, E>(p);
			return std::pair<const void*, std::size_t>{r.first, (std::size_t)r.second};
		};
	}
	template<typename T>
	Table make() {
		Table t;
		t.align = alignof(T);
		[&]<std::size_t... I>(std::index_sequence<I...>) {
			((t.tag[I] = tag_fn<ids[I], T>(), t.ctag[I] = ctag_fn<ids[I], T>()), ...);
		}(std::make_index_sequence<max_id>{});
		fill_enum<T, Tag8>(t, 0);
		fill_enum<T, TagI>(t, 1);
		fill_enum<T, Tag64>(t, 2);
		t.untag = [](void* p) {
			std::pair<T*, std::size_t> r = asyncpp::ptr_untag<T>(p);
			return std::pair<void*, std::size_t>{r.first, r.second};
		};
		t.cuntag = [](const void* p) {
			std::pair<const T*, std::size_t> r = asyncpp::ptr_untag<T>(p);
			return std::pair<const void*, std::size_t>{r.first, r.second};
		};
		t.get = [](const void* p) { return asyncpp::ptr_get_tag<T>(p); };
		return t;
	}
	const Table tables[] = {make<char>(),		  make<short>(),	   make<int>(),			make<double>(),		 make<long double>(), make<Aligned<32>>(),
							make<Aligned<64>>(), make<Aligned<128>>()};
	constexpr int nr_tables = sizeof(tables) / sizeof(tables[0]);

	uint64_t word() { return ((uint64_t)vrt::choose(1u << 16) << 48) | ((uint64_t)vrt::choose(1u << 24) << 24) | vrt::choose(1u << 24); }

	template<std::size_t... A>
	std::size_t get_mixed(const void* p) {
		return asyncpp::ptr_get_tag<Aligned<A>...>(p);
	}
	void tags() {
		auto& t = tables[vrt::choose(nr_tables)];
		uint64_t raw;
		switch (vrt::choose(4)) {
		case 0: raw = word(); break;
		case 1: raw = ~0ull; break;
		case 2: raw = vrt::choose(4) * t.align; break;
		default: raw = (uint64_t)1 << vrt::choose(64);
		}
		raw &= ~(uint64_t)(t.align - 1);
		void* p = (void*)raw;
		std::size_t fitting = 0;
		while (fitting < max_id && ids[fitting] < t.align)
			fitting++;
		int idx = vrt::chance(1, 4) ? vrt::choose(max_id) : vrt::chance(1, 3) ? fitting - 1 : vrt::choose((uint32_t)fitting);
		std::size_t id = ids[idx];
		vrt::note("pointer %p, alignment %zu, id %zu", p, t.align, id);
		bool fits = id < t.align;
		CHECK((t.tag[idx] != nullptr) == fits, "id %zu with alignment %zu is %s", id, t.align, fits ? "rejected" : "accepted");
		CHECK((t.ctag[idx] != nullptr) == fits, "id %zu with alignment %zu is %s for const pointers", id, t.align, fits ? "rejected" : "accepted");
		if (!fits) return;
		if (id) vrt::nontrivial();
		auto same = [&](std::pair<const void*, std::size_t> r, const char* what) {
			CHECK(r.first == p && r.second == id, "%s: got pointer %p and id %zu", what, r.first, r.second);
		};
		int form = vrt::choose(4);
		void* x;
		const void* c;
		if (form == 3) {
			x = t.tag[idx](p);
			c = t.ctag[idx](p);
		} else {
			x = t.etag[form][idx](p);
			c = t.cetag[form][idx](p);
		}
		CHECK(x == c, "const and non-const flavour differ");
		CHECK((id == 0) == (x == p), "tagged pointer %p for id %zu of %p", x, id, p);
		same(t.untag(x), "untag");
		same(t.cuntag(x), "untag const");
		for (int e = 0; e < 3; e++) {
			same(t.euntag[e](x), "untag enum");
			same(t.ceuntag[e](x), "untag const enum");
		}
		CHECK(t.get(x) == id, "ptr_get_tag gives %zu", t.get(x));
		// the tag decides about the type: only the bits common to all types are used
		struct Mix {
			std::size_t min;
			std::size_t (*get)(const void*);
		};
		static const Mix mixes[] = {{1, &get_mixed<1, 8>}, {2, &get_mixed<8, 2, 16>}, {4, &get_mixed<4, 4>}, {4, &get_mixed<16, 64, 4>}, {8, &get_mixed<8, 16, 32>}, {16, &get_mixed<64, 16>}, {16, &get_mixed<16, 32, 64, 128>}};
		for (auto& m : mixes)
			if (m.min <= t.align && id < m.min) CHECK(m.get(x) == id, "ptr_get_tag of several types gives %zu", m.get(x));
		CHECK((asyncpp::min_alignof<Aligned<8>, Aligned<2>, Aligned<16>>() == 2));
		CHECK((asyncpp::min_alignof<Aligned<2>, Aligned<8>>() == 2 && asyncpp::min_alignof<Aligned<8>, Aligned<2>>() == 2));
	}
	// real objects with different tags side by side
	template<typename T>
	void objects() {
		int n = vrt::range(1, 8);
		std::vector<T> objs(n);
		std::vector<void*> tagged;
		std::vector<int> ids;
		for (int i = 0; i < n; i++) {
			new (&objs[i]) T{};
			int id = vrt::choose(4);
			ids.push_back(id);
			switch (id) {
			case 0: tagged.push_back(asyncpp::ptr_tag<0>(&objs[i])); break;
			case 1: tagged.push_back(asyncpp::ptr_tag<1>(&objs[i])); break;
			case 2: tagged.push_back(asyncpp::ptr_tag<2>(&objs[i])); break;
			default: tagged.push_back(asyncpp::ptr_tag<3>(&objs[i])); break;
			}
		}
		for (int i = 0; i < n; i++) {
			auto [p, id] = asyncpp::ptr_untag<T>(tagged[i]);
			CHECK(p == &objs[i] && (int)id == ids[i]);
			*p = T{};
		}
		vrt::nontrivial();
	}

	// ------------------------------------------------------------ guards
	struct Rec {
		std::vector<int>* log;
		int id;
		int* runs;
		Tracked t;
		int bump = 0;
		void operator()() noexcept {
			t.check();
			log->push_back(id * 10 + bump);
			++*runs;
		}
	};
	struct Boom {};
	struct Scope {
		int id, how, leave;
		bool engaged;
		std::vector<int> ops;
		std::vector<std::unique_ptr<Scope>> inner; // run after the ops, before leaving
	};
	std::unique_ptr<Scope> gen(int depth, int& next) {
		auto s = std::make_unique<Scope>();
		s->id = next++;
		s->how = vrt::choose(4);
		s->leave = vrt::choose(5);
		s->engaged = !vrt::chance(1, 3);
		int n = vrt::size(0, 6);
		for (int i = 0; i < n; i++)
			s->ops.push_back(vrt::choose(5));
		if (depth < 3) {
			int m = vrt::size(0, 2);
			for (int i = 0; i < m; i++)
				s->inner.push_back(gen(depth + 1, next));
		}
		return s;
	}
	struct M {
		std::vector<int> log;
	};
	void model(M& m, const Scope& s) {
		bool e = s.engaged;
		int bump = 0;
		for (int o : s.ops) {
			if (o == 0) e = true;
			if (o == 1) e = false;
			if (o == 2) bump = (bump + 1) % 10;
		}
		bool thrown = false;
		for (auto& i : s.inner) {
			try {
				model(m, *i);
			} catch (const Boom&) {
				if (s.leave == 4) {
					thrown = true;
					break;
				}
			}
		}
		if (e) m.log.push_back(s.id * 10 + bump);
		if (s.leave == 1 || thrown) throw Boom{};
	}
	struct R {
		std::vector<int> log;
		std::map<int, int> runs;
	};
	void real(R& r, const Scope& s);
	template<typename G>
	int body(R& r, const Scope& s, G& g) {
		bool e = s.engaged;
		CHECK(g.is_engaged() == e);
		for (int o : s.ops) {
			switch (o) {
			case 0: g.engage(), e = true; break;
			case 1: g.disengage(), e = false; break;
			case 2: g.function().bump = (g.function().bump + 1) % 10; break;
			case 3: CHECK(std::as_const(g).function().id == s.id); break;
			default: break;
			}
			CHECK(std::as_const(g).is_engaged() == e, "is_engaged() is wrong");
			CHECK(r.runs[s.id] == 0, "the callback ran before the scope ended");
		}
		for (auto& i : s.inner) {
			try {
				real(r, *i);
			} catch (const Boom&) {
				if (s.leave == 4) throw;
			}
		}
		CHECK(r.runs[s.id] == 0, "the callback ran before the scope ended");
		return s.leave;
	}
	int scope(R& r, const Scope& s) {
		Rec rec{&r.log, s.id, &r.runs[s.id], Tracked(s.id)};
		auto leave = [&](int l) {
			if (l == 1) throw Boom{};
			return l;
		};
		switch (s.how) {
		case 0: {
			asyncpp::scope_guard g(rec, s.engaged);
			if (body(r, s, g) == 2) return 2;
			leave(s.leave);
			break;
		}
		case 1: {
			asyncpp::scope_guard<Rec> g{std::move(rec), s.engaged};
			return leave(body(r, s, g));
		}
		case 2: {
			auto g = std::make_unique<asyncpp::scope_guard<Rec>>(rec, s.engaged);
			return leave(body(r, s, *g));
		}
		default: {
			// engaged unless told otherwise
			asyncpp::scope_guard g(rec);
			if (!g.is_engaged()) vrt::fail("a new guard is not engaged");
			if (!s.engaged) g.disengage();
			for (int once = 0; once < 1; once++) {
				if (body(r, s, g) == 3) break;
				leave(s.leave);
			}
		}
		}
		return 0;
	}
	void real(R& r, const Scope& s) { scope(r, s); }
	void guards() {
		int next = 1;
		auto s = gen(0, next);
		M m;
		R r;
		bool mt = false, rt = false;
		try {
			model(m, *s);
		} catch (const Boom&) { mt = true; }
		try {
			real(r, *s);
		} catch (const Boom&) { rt = true; }
		CHECK(mt == rt, "exception got lost");
		for (auto& [id, n] : r.runs)
			CHECK(n <= 1, "the callback of guard %d ran %d times", id, n);
		CHECK(m.log == r.log, "%zu callbacks ran, expected %zu, or in another order", r.log.size(), m.log.size());
		if (next > 2 || !s->ops.empty()) vrt::nontrivial();
		if (mt) vrt::label("left by an exception");
	}
	struct Picky {
		int* runs;
		Picky(int* r) : runs(r) {}
		Picky(const Picky& o) : runs(o.runs) {}
		Picky(Picky&&) : runs(nullptr) { throw Boom{}; }
		void operator()() noexcept { ++*runs; }
	};
	void failing_guard() {
		int runs = 0;
		bool threw = false;
		static_assert(!std::is_copy_constructible_v<asyncpp::scope_guard<Rec>> && !std::is_copy_assignable_v<asyncpp::scope_guard<Rec>>);
		Picky p(&runs);
		try {
			asyncpp::scope_guard<Picky> g(p);
		} catch (const Boom&) { threw = true; }
		CHECK(runs == (threw ? 0 : 1), "%s ran its callback %d times", threw ? "a guard that could not be constructed" : "a guard", runs);
	}
} // namespace

SCENARIO(tagged_pointers, 50, vrt::NO_TSAN) { tags(); }
SCENARIO(tagged_objects, 10, vrt::NO_TSAN) {
	switch (vrt::choose(3)) {
	case 0: objects<int>(); break;
	case 1: objects<Aligned<64>>(); break;
	default: objects<double>();
	}
}
SCENARIO(scope_guards, 38, vrt::NO_TSAN) {
	guards();
	if (vrt::chance(1, 10)) failing_guard();
}
