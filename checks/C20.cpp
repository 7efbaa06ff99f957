// C20: threadsafe_queue
#include "../lib/vrt_shim.h"
#include <asyncpp/threadsafe_queue.h>
#include "../lib/hist.h"
using asyncpp::threadsafe_queue;
using h::MoveOnly;
using h::Tracked;

namespace {
	enum OK { PUSH_RV, PUSH_LV, EMPLACE, POP, COPY, COPY_LV, MOVE, ASSIGN, MOVE_ASSIGN, SELF };
	struct Op {
		OK k;
		int q = 0, other = 0;
		int64_t v = 0;				 // pushed or popped element, -1: nothing popped
		std::vector<int64_t> contents; // of a new queue
	};
	const char* names[] = {"push", "push lvalue", "emplace", "pop", "copy", "copy from non-const", "move", "assign from", "move assign from", "self assign"};
	struct Model {
		std::vector<int64_t> q[2];
		std::vector<int64_t> end[2];
		bool check_end = false;
		bool final_ok() const { return !check_end || (q[0] == end[0] && q[1] == end[1]); }
		std::string key() const {
			std::string s;
			for (auto& v : q) {
				s.append((const char*)v.data(), v.size() * sizeof(int64_t));
				s += "|";
			}
			return s;
		}
		void apply(const Op& o, std::vector<Model>& out) const {
			Model m = *this;
			auto& a = m.q[o.q];
			auto& b = m.q[o.other];
			switch (o.k) {
			case PUSH_RV:
			case PUSH_LV:
			case EMPLACE: a.push_back(o.v); break;
			case POP:
				if (a.empty()) {
					if (o.v != -1) return;
				} else {
					if (o.v != a.front()) return;
					a.erase(a.begin());
				}
				break;
			case COPY:
			case COPY_LV:
				if (o.contents != a) return;
				break;
			case MOVE:
				if (o.contents != a) return;
				a.clear();
				break;
			case ASSIGN: a = b; break;
			case MOVE_ASSIGN: a = std::exchange(b, {}); break;
			case SELF: break;
			}
			out.push_back(std::move(m));
		}
	};
	template<typename T>
	constexpr bool copyable = std::is_copy_constructible_v<T>;
	// Element: payload, plus data written before it is pushed
	template<typename T>
	struct Elem {
		T v;
		int64_t* data;
		Elem(int64_t id, int64_t* d) : v(h::val<T>::make(id)), data(d) {}
		// takes a temporary and modifies an object of the caller
		Elem(T&& payload, int64_t* d, int& uses) : v(std::move(payload)), data(d) { uses++; }
		int64_t get() const {
			int64_t id = h::val<T>::get(v);
			CHECK(*data == id + 5, "write made before the push is not visible");
			return id;
		}
	};
	template<typename Q>
	std::vector<int64_t> drain(Q& q) {
		std::vector<int64_t> r;
		while (auto x = q.pop())
			r.push_back(x->get());
		return r;
	}
	template<typename T, typename C>
	void concurrent(const char* what) {
		using E = Elem<T>;
		using Q = threadsafe_queue<E, C>;
		int nt = vrt::range(2, 4);
		vrt::note("%s", what);
		int64_t data[64] = {};
		int next = 0;
		std::vector<std::vector<Op>> prog(nt);
		bool assignments = vrt::chance(2, 3);
		std::vector<Op> initial;
		auto gen = [&](bool only_push) {
			Op o;
			//          push lv emp pop copy copylv move assign massign self
			int w[] = {4, 2, 3, 8, 1, 1, 1, 2, 2, 1};
			if (only_push) std::fill(w + 3, std::end(w), 0);
			if (!copyable<T>) w[PUSH_LV] = w[COPY] = w[COPY_LV] = w[ASSIGN] = 0;
			if (!assignments) w[ASSIGN] = w[MOVE_ASSIGN] = w[SELF] = w[MOVE] = 0;
			int x = vrt::choose(std::accumulate(std::begin(w), std::end(w), 0)), k = 0;
			while (x >= w[k])
				x -= w[k++];
			o.k = (OK)k;
			o.q = vrt::choose(2);
			o.other = 1 - o.q;
			if (k <= EMPLACE) o.v = next++;
			return o;
		};
		int ni = vrt::size(0, 4);
		for (int i = 0; i < ni; i++)
			initial.push_back(gen(true));
		int muts = 0, sizes = 0;
		for (auto& p : prog) {
			int n = vrt::range(1, 5);
			sizes += n;
			for (int i = 0; i < n; i++) {
				p.push_back(gen(false));
				if (p.back().k != SELF) muts++;
			}
		}
		auto qs = std::make_unique<std::array<Q, 2>>();
		h::Hist<Model, Op> hist;
		auto perform = [&](const Op& op) {
			auto& q = (*qs)[op.q];
			auto& b = (*qs)[op.other];
			int64_t res = -1;
			std::vector<int64_t> contents;
			if (op.k <= EMPLACE) data[op.v] = op.v + 5;
			auto i = hist.begin(op);
			switch (op.k) {
			case PUSH_RV: q.push(E(op.v, &data[op.v])); break;
			case PUSH_LV:
				if constexpr (copyable<T>) {
					const E e(op.v, &data[op.v]);
					q.push(e);
				}
				break;
			case EMPLACE:
				if (op.v % 2) {
					int uses = 0;
					q.emplace(h::val<T>::make(op.v), &data[op.v], uses);
					CHECK(uses == 1, "the element was constructed %d times from the arguments of emplace", uses);
				} else
					q.emplace(op.v, &data[op.v]);
				break;
			case POP:
				if (auto x = q.pop()) {
					res = x->get();
				}
				break;
			case COPY:
				if constexpr (copyable<T>) {
					const Q& cq = q;
					Q n(cq);
					contents = drain(n);
				}
				break;
			case COPY_LV:
				if constexpr (copyable<T>) {
					Q n(q);
					contents = drain(n);
				}
				break;
			case MOVE: {
				Q n(std::move(q));
				contents = drain(n);
				break;
			}
			case ASSIGN:
				if constexpr (copyable<T>) {
					auto& r = q = std::as_const(b);
					CHECK(&r == &q);
				}
				break;
			case MOVE_ASSIGN: {
				auto& r = q = std::move(b);
				CHECK(&r == &q);
				break;
			}
			case SELF: {
				auto& self = q;
				if (op.v == 0)
					q = std::move(self);
				else if constexpr (copyable<T>)
					q = self;
				break;
			}
			}
			hist.end(i, [&](Op& o) {
				if (o.k == POP) o.v = res;
				o.contents = contents;
				std::string c;
				for (auto x : contents)
					c += " " + std::to_string(x);
				vrt::note("T%d: queue %d %s %lld%s", vrt::self(), o.q, names[o.k], (long long)o.v, c.c_str());
			});
		};
		for (auto& o : initial)
			perform(o);
		std::vector<std::vthread> ts;
		for (auto& p : prog)
			ts.emplace_back([&] {
				for (auto& o : p)
					perform(o);
			});
		h::join_all(ts);
		Model m;
		m.check_end = true;
		for (int i = 0; i < 2; i++) {
			m.end[i] = drain((*qs)[i]);
			CHECK(!(*qs)[i].pop(), "pop() on an empty queue");
		}
		hist.verify(m);
		if (muts >= 2 && nt >= 2) vrt::nontrivial();
		if (assignments) vrt::label("with copies, moves and assignments");
		// leave some elements behind
		if (vrt::flip()) (*qs)[0].push(E(0, (data[0] = 5, &data[0])));
	}
	// ------------------------------------------------------------ failures
	struct Fragile {
		int64_t t;
		explicit Fragile(int64_t v) : t(v) {
			if (v < 0) throw std::runtime_error("refused");
		}
	};
	template<typename C>
	void failing() {
		using Q = threadsafe_queue<Fragile, C>;
		Q q;
		std::deque<int64_t> m;
		int n = vrt::range(1, 12), failures = 0;
		for (int i = 0; i < n; i++) {
			int k = vrt::choose(5);
			vrt::note("op %d", k);
			try {
				switch (k) {
				case 0: q.emplace(i), m.push_back(i); break;
				case 1:
					failures++;
					q.emplace(-1);
					vrt::fail("the exception of the constructor got lost");
				case 2: {
					Fragile f(i);
					vrt::fail_alloc_after(1 + vrt::choose(2));
					try {
						q.push(f);
						vrt::fail_alloc_after(0);
						m.push_back(i);
					} catch (...) {
						vrt::fail_alloc_after(0);
						throw;
					}
					break;
				}
				case 3: {
					auto x = q.pop();
					CHECK(x.has_value() == !m.empty());
					if (x) {
						CHECK(x->t == m.front(), "popped %lld instead of %lld", (long long)x->t, (long long)m.front());
						m.pop_front();
					}
					break;
				}
				default: {
					Q c(q);
					Q e;
					e.emplace(99);
					e = c;
					for (auto x : m) {
						auto a = c.pop(), b = e.pop();
						CHECK(a && b && a->t == x && b->t == x, "copy differs");
					}
					CHECK(!c.pop() && !e.pop());
				}
				}
			} catch (const std::bad_alloc&) { failures++; } catch (const std::runtime_error&) {
			}
		}
		while (!m.empty()) {
			auto x = q.pop();
			CHECK(x && x->t == m.front(), "element missing at the end");
			m.pop_front();
		}
		CHECK(!q.pop());
		if (failures) vrt::nontrivial();
	}
	// constructor arguments
	void construct() {
		int n = vrt::range(0, 6);
		std::deque<int64_t> d;
		for (int i = 0; i < n; i++)
			d.push_back(vrt::choose(100));
		std::list<int64_t> l(d.begin(), d.end());
		threadsafe_queue<int64_t> a(d), b(std::as_const(d)), c{std::deque<int64_t>(d)}, e;
		threadsafe_queue<int64_t, std::list<int64_t>> f(l), g(std::move(l));
		const auto copy = a;
		auto copy2 = copy;
		e = copy;
		threadsafe_queue<int64_t> moved(std::move(c));
		for (auto x : d) {
			CHECK(a.pop() == x && b.pop() == x && moved.pop() == x && e.pop() == x && f.pop() == x && g.pop() == x && copy2.pop() == x, "element %lld is missing",
				  (long long)x);
		}
		std::deque<MoveOnly> mo;
		for (auto x : d)
			mo.emplace_back(x);
		threadsafe_queue<MoveOnly> o(std::move(mo));
		for (auto x : d) {
			auto y = o.pop();
			CHECK(y && y->get() == x, "a moved in element is missing");
		}
		CHECK(!o.pop());
		CHECK(!a.pop() && !b.pop() && !c.pop() && !e.pop() && !f.pop() && !g.pop() && !moved.pop() && !copy2.pop());
		if (n) vrt::nontrivial();
	}
} // namespace

SCENARIO(concurrent_operations, 900) {
	switch (vrt::choose(5)) {
	case 0: concurrent<int64_t, std::deque<Elem<int64_t>>>("int64"); break;
	case 1: concurrent<Tracked, std::deque<Elem<Tracked>>>("tracked"); break;
	case 2: concurrent<MoveOnly, std::deque<Elem<MoveOnly>>>("move only"); break;
	case 3: concurrent<std::vector<int64_t>, std::list<Elem<std::vector<int64_t>>>>("vector in list"); break;
	default: concurrent<MoveOnly, std::list<Elem<MoveOnly>>>("move only in list"); break;
	}
}
SCENARIO(failures, 70, vrt::NO_TSAN) {
	if (vrt::flip())
		failing<std::list<Fragile>>();
	else
		failing<std::deque<Fragile>>();
}
SCENARIO(construction, 30, vrt::NO_TSAN) { construct(); }
// Many elements
SCENARIO(many_elements, 2, vrt::NO_TSAN) {
	auto go = [](auto& q) {
		using Q = std::remove_reference_t<decltype(q)>;
		int n = h::bulk();
		int64_t in = 0, out = 0;
		int phases = (int)vrt::range(1, 3);
		for (int p = 0; p < phases; p++) {
			for (int i = 0; i < n; i++) {
				if (vrt::flip())
					q.push(Tracked(in));
				else
					q.emplace(in);
				in++;
			}
			int take = vrt::flip() ? (int)(in - out) : (int)vrt::choose((uint32_t)(in - out));
			switch (vrt::choose(4)) {
			case 0: {
				Q c(q);
				for (auto i = out; i < in; i++) {
					auto x = c.pop();
					CHECK(x && x->get() == i, "element %lld is missing in a copy", (long long)i);
				}
				CHECK(!c.pop());
				break;
			}
			case 1: {
				Q c(std::move(q));
				CHECK(!q.pop());
				q = c;
				break;
			}
			case 2: {
				Q c;
				c.emplace(-3);
				c = std::move(q);
				CHECK(!q.pop());
				q = std::move(c);
				break;
			}
			}
			for (int i = 0; i < take; i++) {
				auto x = q.pop();
				CHECK(x && x->get() == out, "popped %lld instead of %lld", x ? (long long)x->get() : -1ll, (long long)out);
				out++;
			}
		}
		while (auto x = q.pop())
			CHECK(x->get() == out++, "wrong order");
		CHECK(in == out, "%lld elements are missing", (long long)(in - out));
		if (n > 20) vrt::nontrivial();
	};
	if (vrt::flip()) {
		threadsafe_queue<Tracked> q;
		go(q);
	} else {
		threadsafe_queue<Tracked, std::list<Tracked>> q;
		go(q);
	}
}
