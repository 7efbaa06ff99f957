// C10: signal, signal_handle, scoped_signal_handle, signal_manager
#include "../lib/vrt_shim.h"
#include <asyncpp/signal.h>
#include "../lib/helpers.h"
using asyncpp::scoped_signal_handle;
using asyncpp::signal_handle;

namespace {
	struct slot_error {};
	// ---------------------------------------------------------------- systems under test: N channels
	template<typename Traits>
	struct Signals {
		using sig = asyncpp::signal<void(int, const std::string&), Traits>;
		sig s[3];
		static constexpr bool manager = false;
		template<typename F>
		signal_handle append(int c, F&& f, bool op) {
			return op ? (s[c] += std::forward<F>(f)) : s[c].append(std::forward<F>(f));
		}
		template<typename F>
		signal_handle prepend(int c, F&& f) { return s[c].prepend(std::forward<F>(f)); }
		bool remove(int c, const signal_handle& h) { return s[c].remove(h); }
		bool owns(int c, const signal_handle& h) { return s[c].owns_handle(h); }
		std::size_t emit(int c, int a, const std::string& b) { return s[c](a, b); }
		long size(int c) {
			long r = (long)s[c].size();
			CHECK(s[c].empty() == (r == 0), "empty() disagrees with size()");
			return r;
		}
		void shrink() {}
		// content of b becomes the content of a; false if unsupported
		void move(int a, int b, bool construct) {
			if (construct) {
				sig t(std::move(s[b]));
				CHECK(s[b].size() == 0, "moved-from signal is not empty");
				sig& r = (s[a] = std::move(t));
				CHECK(&r == &s[a]);
			} else {
				sig& r = (s[a] = std::move(s[b]));
				CHECK(&r == &s[a], "assignment does not return the signal");
			}
		}
		void move_all() {}
	};
	template<typename Key, typename Traits>
	struct Manager {
		using mgr = asyncpp::signal_manager<Key, void(int, const std::string&), Traits>;
		mgr m;
		static constexpr bool manager = true;
		static Key key(int c) {
			if constexpr (std::is_same_v<Key, std::string>)
				return std::string(1, (char)('a' + c));
			else
				return c * 1000;
		}
		template<typename F>
		signal_handle append(int c, F&& f, bool) { return m.append(key(c), std::forward<F>(f)); }
		template<typename F>
		signal_handle prepend(int c, F&& f) { return m.prepend(key(c), std::forward<F>(f)); }
		bool remove(int c, const signal_handle& h) { return m.remove(key(c), h); }
		bool owns(int c, const signal_handle& h) { return m.owns_handle(key(c), h); }
		std::size_t emit(int c, int a, const std::string& b) { return vrt::flip() ? m(key(c), a, b) : m.invoke(key(c), a, b); }
		long size(int) { return -1; }
		void shrink() { m.shrink_to_fit(); }
		void move(int, int, bool) {}
		void move_all() {
			mgr t(std::move(m));
			CHECK(m.shrink_to_fit() == 0, "moved-from manager still has signals");
			m = std::move(t);
		}
	};

	struct World;
	World* g_w;
	// The callable connected as slot
	struct Fn {
		int id;
		h::Tracked cookie;
		explicit Fn(int i) : id(i), cookie(i) { count(1); }
		Fn(const Fn& o) : id(o.id), cookie(o.cookie) { count(1); }
		Fn(Fn&& o) : id(std::exchange(o.id, -1)), cookie(std::move(o.cookie)) {
			if (id >= 0) count(0);
		}
		~Fn();
		void operator()(int a, const std::string& b);
		void count(int d);
	};
	struct MSlot {
		int id, chan;
		bool connected = true;
	};
	struct Frame {
		int chan, arg;
		std::vector<int> todo; // ids in order
		std::size_t pos = 0, invoked = 0;
	};
	struct World {
		int budget = 0, next_id = 0, nested = 0, changed_inside = 0;
		std::vector<MSlot> slots;
		std::vector<int> order[3];
		std::map<int, int> fn_alive, running;
		std::vector<Frame> frames;
		struct H {
			signal_handle h;
			int id;
		};
		std::vector<H> hs;
		std::vector<std::pair<scoped_signal_handle, int>> scoped;
		std::function<void(int)> act;
		std::function<void()> probe;
	};
	void Fn::count(int d) {
		if (g_w) g_w->fn_alive[id] += d;
	}
	Fn::~Fn() {
		if (id < 0 || !g_w) return;
		auto& w = *g_w;
		if (--w.fn_alive[id] == 0 && w.running[id]) vrt::fail("slot %d was destroyed while being invoked", id);
		// the destructor of a slot may use the signal
		if (w.fn_alive[id] == 0 && w.probe) w.probe();
	}
	void Fn::operator()(int a, const std::string& b) {
		auto& w = *g_w;
		cookie.check();
		CHECK(!w.frames.empty(), "slot %d invoked without an emission", id);
		auto& f = w.frames.back();
		CHECK(a == f.arg && b == std::to_string(a) + "-argument-long-enough", "slot %d was invoked with other arguments", id);
		while (f.pos < f.todo.size() && !w.slots[f.todo[f.pos]].connected)
			f.pos++;
		CHECK(f.pos < f.todo.size(), "slot %d was invoked although no further slot is due", id);
		CHECK(f.todo[f.pos] == id, "slot %d was invoked instead of slot %d", id, f.todo[f.pos]);
		f.pos++;
		f.invoked++;
		w.running[id]++;
		vrt::note("%*sslot %d", (int)w.frames.size() * 2, "", id);
		struct Dec {
			World& w;
			int id;
			~Dec() { w.running[id]--; }
		} dec{w, id};
		const int self = id;
		if (w.budget > 0) {
			int n = (int)vrt::choose(3);
			for (int i = 0; i < n; i++)
				w.act(self);
			if (n == 0 && w.budget > 0 && vrt::chance(1, 12)) {
				vrt::note("%*sslot %d throws", (int)w.frames.size() * 2, "", self);
				throw slot_error{};
			}
		}
	}

	template<typename Sys>
	void sequential() {
		World w;
		g_w = &w;
		w.budget = (int)vrt::range(4, 45);
		auto sys = std::make_unique<Sys>();
		asyncpp::signal<void()> other_type;
		auto foreign = other_type.append([] {});
		auto model_disconnect = [&](int id) {
			bool was = w.slots[id].connected;
			if (was) {
				w.slots[id].connected = false;
				std::erase(w.order[w.slots[id].chan], id);
				if (!w.frames.empty()) w.changed_inside++;
			}
			return was;
		};
		auto owns_all = [&](const signal_handle& hd, int id) {
			bool conn = id >= 0 && w.slots[id].connected;
			CHECK(hd.valid() == conn && (bool)hd == conn && !hd == !conn, "handle of %s slot %d is %s", conn ? "connected" : "disconnected", id,
				  hd.valid() ? "valid" : "invalid");
			for (int c = 0; c < 3; c++)
				CHECK(sys->owns(c, hd) == (conn && w.slots[id].chan == c), "owns_handle for slot %d in channel %d", id, c);
		};
		w.probe = [&] {
			if (!sys) return;
			for (int c = 0; c < 3; c++) {
				sys->size(c);
				CHECK(!sys->owns(c, foreign));
			}
		};
		auto emit = [&](int c) {
			Frame f;
			f.chan = c;
			f.arg = 1000 + w.budget;
			f.todo = w.order[c];
			w.frames.push_back(f);
			if (w.frames.size() > 1) w.nested++;
			std::size_t depth = w.frames.size();
			vrt::note("%*semit %d", (int)depth * 2 - 2, "", c);
			bool threw = false;
			std::size_t n = 0;
			try {
				n = sys->emit(c, f.arg, std::to_string(f.arg) + "-argument-long-enough");
			} catch (const slot_error&) { threw = true; }
			CHECK(w.frames.size() == depth);
			f = w.frames.back();
			w.frames.pop_back();
			if (threw) {
				vrt::label("slot threw");
				return;
			}
			CHECK(n == f.invoked, "emission reported %zu invocations instead of %zu", n, f.invoked);
			while (f.pos < f.todo.size()) {
				CHECK(!w.slots[f.todo[f.pos]].connected, "slot %d was not invoked", f.todo[f.pos]);
				f.pos++;
			}
			vrt::note("%*sdone", (int)depth * 2 - 2, "");
		};
		auto connect = [&](bool front) -> std::pair<signal_handle, int> {
			int c = (int)vrt::choose(3), id = w.next_id++;
			uint32_t how = vrt::choose(4);
			vrt::note("%*s%s %d to %d", (int)w.frames.size() * 2, "", front ? "prepend" : "append", id, c);
			w.slots.push_back({id, c, true});
			signal_handle hd;
			bool threw = false;
			Fn f(id);
			if (how == 3 && vrt::chance(1, 4)) h::g_throw_copy = 1;
			try {
				if (how == 1 || how == 3)
					hd = front ? sys->prepend(c, f) : sys->append(c, f, vrt::flip());
				else if (how == 2) {
					const Fn& cf = f;
					hd = front ? sys->prepend(c, cf) : sys->append(c, cf, vrt::flip());
				} else
					hd = front ? sys->prepend(c, std::move(f)) : sys->append(c, std::move(f), vrt::flip());
			} catch (const h::copy_error&) { threw = true; }
			h::g_throw_copy = 0;
			if (threw) {
				w.slots.back().connected = false;
				return {signal_handle{}, -1};
			}
			if (front)
				w.order[c].insert(w.order[c].begin(), id);
			else
				w.order[c].push_back(id);
			if (!w.frames.empty()) w.changed_inside++;
			return {hd, id};
		};
		auto act = [&](int self) {
			if (w.budget <= 0) return;
			w.budget--;
			switch (vrt::choose(16)) {
			case 0:
			case 1:
			case 2: {
				auto [hd, id] = connect(vrt::chance(1, 3));
				if (id >= 0 && vrt::flip()) w.hs.push_back({hd, id});
				break;
			}
			case 3: {
				auto [hd, id] = connect(vrt::chance(1, 3));
				if (id < 0) break;
				if (!w.scoped.empty() && vrt::chance(1, 3)) {
					vrt::note("%*s scoped handle of %d now holds it", (int)w.frames.size() * 2, "", w.scoped[0].second);
					if (w.scoped[0].second >= 0) model_disconnect(w.scoped[0].second);
					w.scoped[0].second = id;
					w.scoped[0].first = std::move(hd);
				} else {
					vrt::note("%*s held by a scoped handle", (int)w.frames.size() * 2, "");
					w.scoped.emplace_back(scoped_signal_handle(std::move(hd)), id); // moves
				}
				break;
			}
			case 4:
			case 5:
			case 6:
				if (w.frames.size() >= 4) break;
				emit((int)vrt::choose(3));
				break;
			case 7:
			case 8: { // remove through the signal
				if (w.hs.empty()) break;
				auto& x = w.hs[vrt::choose((uint32_t)w.hs.size())];
				int id = x.id;
				signal_handle hd = x.h;
				int c = vrt::chance(3, 4) && id >= 0 ? w.slots[id].chan : (int)vrt::choose(3);
				bool expect = id >= 0 && w.slots[id].connected && w.slots[id].chan == c;
				vrt::note("%*sremove %d from %d", (int)w.frames.size() * 2, "", id, c);
				if (expect) model_disconnect(id);
				bool r = sys->remove(c, hd);
				CHECK(r == expect, "remove of slot %d from %d returned %d", id, c, (int)r);
				break;
			}
			case 9: { // remove self
				signal_handle hd;
				for (auto& x : w.hs)
					if (x.id == self) hd = x.h;
				if (self < 0) break;
				bool expect = w.slots[self].connected && hd;
				vrt::note("%*sremove self", (int)w.frames.size() * 2, "");
				if (expect) model_disconnect(self);
				CHECK(sys->remove(w.slots[self].chan, hd) == expect, "removing itself");
				break;
			}
			case 10: {
				if (w.hs.empty()) break;
				auto i = vrt::choose((uint32_t)w.hs.size());
				vrt::note("%*sdisconnect %d", (int)w.frames.size() * 2, "", w.hs[i].id);
				if (w.hs[i].id >= 0) model_disconnect(w.hs[i].id);
				w.hs[i].h.disconnect();
				w.hs[i].id = -1;
				CHECK(!w.hs[i].h.valid());
				break;
			}
			case 11: { // copy or drop handles
				if (w.hs.empty()) break;
				auto i = vrt::choose((uint32_t)w.hs.size());
				if (vrt::flip()) {
					auto c = w.hs[i];
					CHECK(c.h == w.hs[i].h && !(c.h != w.hs[i].h), "copied handle differs");
					w.hs.push_back(c);
				} else {
					auto gone = std::move(w.hs[i].h);
					w.hs.erase(w.hs.begin() + i);
				}
				break;
			}
			case 12: {
				if (w.scoped.empty()) break;
				auto i = vrt::choose((uint32_t)w.scoped.size());
				int id = w.scoped[i].second;
				switch (vrt::choose(4)) {
				case 3: {
					// to itself, to another scoped handle and back, compared with the handle it holds
					auto& sc = w.scoped[i].first;
					bool was = sc.valid();
					auto& same = sc;
					sc = std::move(same);
					CHECK(sc.valid() == was && bool(sc) == was && !sc == !was, "a scoped handle assigned to itself lost its connection");
					signal_handle copy = static_cast<const signal_handle&>(std::as_const(sc));
					CHECK(copy.valid() == was && copy == static_cast<signal_handle&>(sc) && !(copy != static_cast<signal_handle&>(sc)), "handles of the same connection differ");
					if (was) CHECK(!(copy == signal_handle{}) && copy != signal_handle{}, "handles of different connections are equal");
					scoped_signal_handle other(std::move(sc));
					CHECK(!sc.valid() && other.valid() == was, "moving a scoped handle");
					CHECK(!(other == sc) == was && (other != sc) == was, "scoped handles compare wrong");
					sc = std::move(other);
					CHECK(sc.valid() == was && !other.valid(), "moving a scoped handle back");
					break;
				}
				case 0: {
					vrt::note("%*sscoped handle of %d ends", (int)w.frames.size() * 2, "", id);
					if (id >= 0) model_disconnect(id);
					auto gone = std::move(w.scoped[i].first);
					w.scoped.erase(w.scoped.begin() + i);
					break;
				}
				case 1:
					vrt::note("%*sscoped handle of %d released", (int)w.frames.size() * 2, "", id);
					w.scoped[i].first.release();
					w.scoped[i].second = -1;
					break;
				case 2:
					vrt::note("%*sscoped handle of %d disconnected", (int)w.frames.size() * 2, "", id);
					if (id >= 0) model_disconnect(id);
					w.scoped[i].first.disconnect();
					w.scoped[i].second = -1;
					break;
				}
				break;
			}
			case 13: {
				CHECK(!sys->remove((int)vrt::choose(3), foreign), "a handle of another kind of signal was removed");
				CHECK(foreign.valid() && other_type.size() == 1, "a foreign handle was disconnected");
				CHECK(!sys->remove(0, signal_handle{}), "an empty handle was removed");
				break;
			}
			case 14:
				vrt::note("%*sshrink", (int)w.frames.size() * 2, "");
				sys->shrink();
				break;
			case 15: { // moves of signals that are not being emitted
				if (!w.frames.empty()) break;
				if constexpr (Sys::manager) {
					vrt::note("move the manager");
					sys->move_all();
				} else {
					int a = (int)vrt::choose(3), b = (a + 1 + (int)vrt::choose(2)) % 3;
					bool ctor = vrt::flip();
					vrt::note("move signal %d to %d", b, a);
					std::vector<int> gone = w.order[a];
					// the slots of the target are gone; handles to them are not looked at again
					for (auto id : gone) {
						for (auto it = w.hs.begin(); it != w.hs.end();)
							it = it->id == id ? w.hs.erase(it) : it + 1;
						for (auto it = w.scoped.begin(); it != w.scoped.end();)
							it = it->second == id ? w.scoped.erase(it) : it + 1;
						w.slots[id].connected = false;
					}
					w.order[a] = std::move(w.order[b]);
					w.order[b].clear();
					for (auto id : w.order[a])
						w.slots[id].chan = a;
					auto p = std::move(w.probe); // moves are not for use with concurrent access
					w.probe = nullptr;
					sys->move(a, b, ctor);
					w.probe = std::move(p);
					// (a handle of a slot disconnected earlier may keep its successors alive)
					for (auto id : w.hs.empty() && w.scoped.empty() ? gone : std::vector<int>{})
						CHECK(!w.fn_alive[id], "slot %d of the overwritten signal was not released", id);
				}
				break;
			}
			}
		};
		w.act = act;
		auto settle = [&] {
			for (int c = 0; c < 3; c++) {
				long s = sys->size(c);
				CHECK(s < 0 || s == (long)w.order[c].size(), "channel %d has size %ld instead of %zu", c, s, w.order[c].size());
			}
			for (auto& x : w.hs)
				owns_all(x.h, x.id);
			for (auto& [s, id] : w.scoped)
				owns_all(static_cast<const signal_handle&>(s), id);
			for (auto id = 0; id < w.next_id; id++)
				if (w.slots[id].connected) CHECK(w.fn_alive[id] == 1, "connected slot %d has been released", id);
		};
		while (w.budget > 0) {
			act(-1);
			settle();
		}
		// without handles of disconnected slots nothing but the connected slots stays alive
		if (vrt::flip()) {
			w.hs.clear();
			for (auto& [s, id] : w.scoped)
				if (id >= 0) model_disconnect(id);
			w.scoped.clear();
			for (int c = 0; c < 3; c++)
				emit(c);
			for (int id = 0; id < w.next_id; id++)
				CHECK(w.fn_alive[id] == (w.slots[id].connected ? 1 : 0), "slot %d is %s but %s", id, w.slots[id].connected ? "connected" : "disconnected",
					  w.fn_alive[id] ? "alive" : "released");
			vrt::label("checked prompt release");
		}
		if (w.changed_inside && w.nested) vrt::nontrivial();
		w.probe = nullptr;
		if (vrt::flip()) { // handles may outlive the signal
			sys.reset();
			w.hs.clear();
			w.scoped.clear();
		} else {
			w.hs.clear();
			w.scoped.clear();
			sys.reset();
		}
		for (int id = 0; id < w.next_id; id++)
			CHECK(w.fn_alive[id] == 0, "slot %d was never released", id);
		w.act = nullptr;
		g_w = nullptr;
	}

	// ---------------------------------------------------------------- concurrent
	constexpr uint64_t never = UINT64_MAX;
	struct CSlot {
		bool front = false;
		int chan = 0;
		uint64_t conn_b = never, conn_e = never, disc_b = never, disc_e = never;
		int dead = 0;
		int64_t payload = 0; // plain memory, published by connecting
	};
	struct CEmit {
		int chan;
		uint64_t b, e = never;
		std::vector<int> got;
	};
	uint64_t g_clock;
	std::vector<CSlot>* g_slots;
	std::vector<CEmit>* g_emits;
	struct CFn {
		int id;
		std::unique_ptr<int64_t> payload;
		std::unique_ptr<h::Tracked> cookie;
		CFn(int i) : id(i), payload(std::make_unique<int64_t>(i * 3)), cookie(std::make_unique<h::Tracked>(i)) {}
		CFn(CFn&& o) : id(std::exchange(o.id, -1)), payload(std::move(o.payload)), cookie(std::move(o.cookie)) {}
		~CFn() {
			if (id >= 0) {
				CHECK(*payload == id * 3);
				*payload = -1;
				h::quiet([&] { CHECK(++(*g_slots)[id].dead == 1, "slot destroyed twice"); });
			}
		}
		void operator()(int em, const std::string& s) {
			CHECK(*payload == id * 3, "slot state is not visible");
			CHECK(s.size() == 24);
			h::quiet([&] {
				++g_clock;
				(*g_emits)[em].got.push_back(id);
				if ((*g_slots)[id].dead) vrt::fail("slot invoked after destruction");
			});
		}
	};
	template<typename Sys>
	void concurrent() {
		std::vector<CSlot> slots;
		std::vector<CEmit> emits;
		g_slots = &slots;
		g_emits = &emits;
		g_clock = 0;
		auto tick = [&] { return h::quiet([&] { return ++g_clock; }); };
		int overlap = 0;
		{
			Sys sys;
			struct H {
				signal_handle h;
				int id;
			};
			auto connect = [&](bool front, int c) -> H {
				int id = h::quiet([&] {
					slots.emplace_back();
					return (int)slots.size() - 1;
				});
				CFn f(id);
				h::quiet([&] {
					slots[id].front = front;
					slots[id].chan = c;
					slots[id].conn_b = ++g_clock;
				});
				auto hd = front ? sys.prepend(c, std::move(f)) : sys.append(c, std::move(f), false);
				h::quiet([&] { slots[id].conn_e = ++g_clock; });
				return {hd, id};
			};
			std::vector<H> initial;
			int n0 = (int)vrt::choose(5);
			for (int i = 0; i < n0; i++)
				initial.push_back(connect(false, (int)vrt::choose(2)));
			int nt = (int)vrt::range(2, 4), total = 0;
			struct Step {
				int k, x, c;
			};
			std::vector<std::vector<Step>> prog(nt);
			for (auto& p : prog) {
				int n = (int)vrt::range(1, 5);
				for (int i = 0; i < n && total < 14; i++, total++)
					p.push_back({(int)vrt::choose(Sys::manager ? 11 : 10), (int)vrt::choose(8), (int)vrt::choose(2)});
			}
			std::vector<std::vector<H>> given(nt);
			for (std::size_t i = 0; i < initial.size(); i++)
				for (int t = 0; t < nt; t++)
					if (vrt::flip()) given[t].push_back(initial[i]);
			initial.clear();
			auto disconnect = [&](int id, auto&& fn) {
				h::quiet([&] { slots[id].disc_b = std::min(slots[id].disc_b, ++g_clock); });
				fn();
				h::quiet([&] { slots[id].disc_e = std::min(slots[id].disc_e, ++g_clock); });
			};
			std::vector<int> removed_ok;
			std::vector<std::vthread> ts;
			for (int t = 0; t < nt; t++)
				ts.emplace_back([&, t, mine = std::move(given[t])]() mutable {
					for (auto& s : prog[t]) {
						switch (s.k) {
						case 0:
						case 1: mine.push_back(connect(false, s.c)); break;
						case 2: mine.push_back(connect(true, s.c)); break;
						case 3:
						case 4: {
							if (mine.empty()) break;
							auto& x = mine[s.x % mine.size()];
							int c = h::quiet([&] { return slots[x.id].chan; });
							disconnect(x.id, [&] {
								if (sys.remove(c, x.h)) h::quiet([&] { removed_ok.push_back(x.id); });
							});
							break;
						}
						case 5: {
							if (mine.empty()) break;
							auto i = s.x % mine.size();
							disconnect(mine[i].id, [&] { mine[i].h.disconnect(); });
							mine.erase(mine.begin() + i);
							break;
						}
						case 10: sys.shrink(); break;
						default: {
							int e = h::quiet([&] {
								for (auto& o : emits)
									if (o.e == never) overlap++;
								emits.push_back({s.c, ++g_clock, never, {}});
								return (int)emits.size() - 1;
							});
							auto n = sys.emit(s.c, e, std::string("twenty-four characters!!"));
							h::quiet([&] {
								emits[e].e = ++g_clock;
								CHECK(n == emits[e].got.size(), "emission reported %zu invocations instead of %zu", n, emits[e].got.size());
							});
							break;
						}
						}
					}
				});
			h::join_all(ts);
			std::sort(removed_ok.begin(), removed_ok.end());
			CHECK(std::adjacent_find(removed_ok.begin(), removed_ok.end()) == removed_ok.end(), "two calls claim to have disconnected the same slot");
			// One quiet emission: exactly the connected slots
			for (int c = 0; c < 2; c++) {
				emits.push_back({c, tick(), never, {}});
				sys.emit(c, (int)emits.size() - 1, std::string("twenty-four characters!!"));
				emits.back().e = tick();
				std::size_t conn = 0;
				for (auto& s : slots)
					conn += s.chan == c && s.disc_b == never;
				CHECK(sys.size(c) < 0 || sys.size(c) == (long)conn, "size is %ld instead of %zu", sys.size(c), conn);
			}
		}
		for (std::size_t i = 0; i < slots.size(); i++)
			CHECK(slots[i].dead == 1, "slot %zu was not released", i);
		for (auto& e : emits) {
			std::vector<int> pos(slots.size(), -1);
			for (std::size_t i = 0; i < e.got.size(); i++) {
				CHECK(pos[e.got[i]] < 0, "slot %d was invoked twice by one emission", e.got[i]);
				pos[e.got[i]] = (int)i;
			}
			for (std::size_t i = 0; i < slots.size(); i++) {
				auto& s = slots[i];
				if (s.chan == e.chan && s.conn_e < e.b && s.disc_b > e.e)
					CHECK(pos[i] >= 0, "connected slot %zu was not invoked", i);
				if (s.chan != e.chan || s.conn_b > e.e || s.disc_e < e.b)
					CHECK(pos[i] < 0, "slot %zu was invoked although it was not connected", i);
				if (pos[i] < 0) continue;
				for (std::size_t j = 0; j < slots.size(); j++) {
					auto& o = slots[j];
					if (i == j || pos[j] < 0 || s.conn_e > o.conn_b) continue;
					// s was connected before o
					if (o.front)
						CHECK(pos[j] < pos[i], "slot %zu was prepended after slot %zu but invoked later", j, i);
					else
						CHECK(pos[i] < pos[j], "slot %zu was appended after slot %zu but invoked earlier", j, i);
				}
			}
		}
		if (overlap && slots.size() > 1) vrt::nontrivial();
	}
	using mt = asyncpp::signal_traits_mt;
	using st = asyncpp::signal_traits_st;
} // namespace
SCENARIO(signals_st, 150, vrt::NO_TSAN) { sequential<Signals<st>>(); }
SCENARIO(signals_mt, 150, vrt::NO_TSAN) { sequential<Signals<mt>>(); }
SCENARIO(manager_int, 100, vrt::NO_TSAN) { sequential<Manager<int, mt>>(); }
SCENARIO(manager_string, 100, vrt::NO_TSAN) { sequential<Manager<std::string, st>>(); }
SCENARIO(concurrent_signal, 200) { concurrent<Signals<mt>>(); }
SCENARIO(concurrent_manager, 150) { concurrent<Manager<int, mt>>(); }
// Many slots, many emissions
SCENARIO(many_slots, 1, vrt::NO_TSAN) {
	auto go = [](auto& sg) {
		int n = h::bulk(), emissions = n > 5000 ? 2 : vrt::chance(1, 8) ? 70000 / n + 3 : (int)vrt::range(1, 4);
		std::vector<int> order, expect;
		std::deque<int> model;
		std::vector<signal_handle> hs((std::size_t)n);
		std::vector<h::Tracked> keep;
		auto slot = [&](int i) {
			return [&, i, t = h::Tracked(i)](int a) {
				CHECK(t.get() == i && a == 3);
				order.push_back(i);
			};
		};
		for (int i = 0; i < n; i++)
			if (vrt::chance(1, 4)) {
				hs[i] = sg.prepend(slot(i));
				model.push_front(i);
			} else {
				hs[i] = sg.append(slot(i));
				model.push_back(i);
			}
		for (int e = 0; e < emissions; e++) {
			order.clear();
			CHECK(sg.size() == model.size(), "size() is %zu with %zu slots", sg.size(), model.size());
			std::size_t k = sg(3);
			CHECK(k == model.size(), "the emission reports %zu of %zu slots", k, model.size());
			CHECK(std::equal(order.begin(), order.end(), model.begin(), model.end()), "the slots were not invoked in order (%zu of %zu invocations)", order.size(),
				  model.size());
			if (e < 4) {
				// removal takes time proportional to the number of slots
				std::size_t drop = std::min<std::size_t>(model.size(), vrt::choose(50));
				for (std::size_t j = 0; j < drop; j++) {
					auto it = model.begin() + vrt::choose((uint32_t)model.size());
					if (vrt::flip())
						CHECK(sg.remove(hs[*it]), "remove of a connected slot");
					else
						hs[*it].disconnect();
					model.erase(it);
				}
			}
		}
		CHECK(h::g_tracked.live >= (int64_t)model.size());
		hs.clear();
		if (n > 20) vrt::nontrivial();
	};
	if (vrt::flip()) {
		asyncpp::signal<void(int), asyncpp::signal_traits_mt> s;
		go(s);
	} else {
		asyncpp::signal<void(int), asyncpp::signal_traits_st> s;
		go(s);
	}
}
