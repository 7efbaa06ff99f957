// Recording of concurrent histories of coroutine operations for the linearizability search.
#pragma once
#include "helpers.h"
#include "linear.h"
namespace h {
	// Forwards to an awaiter and records whether the coroutine really suspended.
	template<typename A>
	struct watched {
		A& a;
		bool& immediate;
		bool await_ready() {
			bool r = a.await_ready();
			if (r) immediate = true;
			return r;
		}
		auto await_suspend(std::coroutine_handle<> hd) {
			using R = decltype(a.await_suspend(hd));
			if constexpr (std::is_void_v<R>)
				a.await_suspend(hd);
			else {
				auto r = a.await_suspend(hd);
				if constexpr (std::is_same_v<R, bool>) {
					if (!r) immediate = true;
				} else {
					if (r == hd) immediate = true;
				}
				return r;
			}
		}
		decltype(auto) await_resume() { return a.await_resume(); }
	};
	template<typename A>
	watched(A&, bool&) -> watched<A>;

	// Values used as payload
	template<typename T>
	struct val;
	template<>
	struct val<int64_t> {
		static int64_t make(int64_t v) { return v; }
		static int64_t get(int64_t v) { return v; }
	};
	template<>
	struct val<Tracked> {
		static Tracked make(int64_t v) { return Tracked(v); }
		static int64_t get(const Tracked& v) { return v.get(); }
	};
	template<>
	struct val<MoveOnly> {
		static MoveOnly make(int64_t v) { return MoveOnly(v); }
		static int64_t get(const MoveOnly& v) { return v.get(); }
	};
	template<>
	struct val<std::vector<int64_t>> {
		static std::vector<int64_t> make(int64_t v) { return std::vector<int64_t>(3, v); }
		static int64_t get(const std::vector<int64_t>& v) {
			if (v.size() != 3 || v[0] != v[1] || v[1] != v[2]) vrt::fail("element was constructed with other arguments than given");
			return v[0];
		}
	};

	// An operation that may suspend is recorded as a registration whose interval ends at the next
	// event seen on the registering thread, and a completion event.
	template<typename Model, typename Op>
	struct Hist {
		Linear<Model, Op> lin;
		uint64_t clock = 0;
		int pend[64];
		std::vector<char> done;
		Hist() {
			for (auto& p : pend)
				p = -1;
		}
		uint64_t now() {
			int me = vrt::self();
			clock++;
			if (pend[me] >= 0) {
				auto& r = lin.ops[pend[me]];
				r.ret = std::min(r.ret, clock);
				pend[me] = -1;
				clock++;
			}
			return clock;
		}
		void tick() {
			vrt::Quiet q;
			now();
		}
		std::size_t begin(Op o) {
			vrt::Quiet q;
			uint64_t t = now();
			lin.ops.push_back({o, t, UINT64_MAX});
			return lin.ops.size() - 1;
		}
		std::size_t reg(Op o, int id) {
			vrt::Quiet q;
			auto i = begin(o);
			pend[vrt::self()] = (int)i;
			if ((int)done.size() <= id) done.resize(id + 1);
			return i;
		}
		template<typename F>
		void end(std::size_t i, F&& f) {
			vrt::Quiet q;
			f(lin.ops[i].op);
			lin.ops[i].ret = now();
		}
		void end(std::size_t i) {
			end(i, [](auto&) {});
		}
		void complete(std::size_t r, Op o, int id) {
			vrt::Quiet q;
			if (done[id]) vrt::fail("operation #%d completed twice", id);
			done[id] = 1;
			uint64_t t = now();
			lin.ops[r].ret = std::min(lin.ops[r].ret, t);
			lin.ops.push_back({o, t, t});
		}
		void verify(const Model& m, const char* what = "no sequential explanation for this history") {
			int r = lin.check(m);
			if (r < 0)
				vrt::label("linearizability budget exhausted");
			else if (r == 0)
				vrt::fail("%s", what);
		}
	};
} // namespace h
