// Building blocks shared by the harnesses. Include after the asyncpp headers of interest.
#pragma once
#include "vrt_shim.h"
#include <asyncpp/detail/std_import.h>
#include <asyncpp/dispatcher.h>

namespace h {
	// ------------------------------------------------------------ lifetime-checked value
	struct Counters {
		int64_t live = 0, created = 0, copies = 0, moves = 0;
	};
	inline Counters g_tracked;
	inline int64_t g_throw_copy = 0; // n-th copy construction throws (0 = off)
	struct copy_error : std::runtime_error {
		copy_error() : std::runtime_error("injected copy failure") {}
	};

	class Tracked {
		uint32_t m_cookie = 0x7AC4ED01;
		int64_t m_val = 0;
		std::unique_ptr<int64_t> m_heap; // makes shallow copies / double destroys visible to ASAN
		void born() {
			vrt::Quiet q;
			g_tracked.live++;
			g_tracked.created++;
		}

	public:
		static constexpr int64_t moved_from = -777777;
		Tracked() : Tracked(0) {}
		Tracked(int64_t v) : m_val(v), m_heap(std::make_unique<int64_t>(v)) { born(); }
		Tracked(const Tracked& o) : m_val(o.get()), m_heap(std::make_unique<int64_t>(o.get())) {
			if (g_throw_copy > 0 && --g_throw_copy == 0) throw copy_error();
			born();
			vrt::Quiet q;
			g_tracked.copies++;
		}
		Tracked(Tracked&& o) noexcept : m_val(o.get()), m_heap(std::make_unique<int64_t>(m_val)) {
			o.m_val = moved_from;
			*o.m_heap = moved_from;
			born();
			vrt::Quiet q;
			g_tracked.moves++;
		}
		Tracked& operator=(const Tracked& o) {
			o.check();
			check();
			m_val = o.m_val;
			*m_heap = o.m_val;
			return *this;
		}
		Tracked& operator=(Tracked&& o) noexcept {
			o.check();
			check();
			if (&o != this) {
				m_val = o.m_val;
				*m_heap = m_val;
				o.m_val = moved_from;
				*o.m_heap = moved_from;
			}
			return *this;
		}
		~Tracked() {
			check();
			m_cookie = 0xDEADDEAD;
			vrt::Quiet q;
			g_tracked.live--;
		}
		void check() const {
			if (m_cookie != 0x7AC4ED01) vrt::fail("use of a destroyed or never constructed object");
			if (*m_heap != m_val) vrt::fail("corrupted object");
		}
		int64_t get() const {
			check();
			return m_val;
		}
		void set(int64_t v) {
			check();
			m_val = v;
			*m_heap = v;
		}
		friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
		friend bool operator<(const Tracked& a, const Tracked& b) { return a.get() < b.get(); }
	};
	// Move-only flavour
	class MoveOnly {
		Tracked m_t;

	public:
		MoveOnly(int64_t v) : m_t(v) {}
		MoveOnly(MoveOnly&&) = default;
		MoveOnly& operator=(MoveOnly&&) = default;
		MoveOnly(const MoveOnly&) = delete;
		MoveOnly& operator=(const MoveOnly&) = delete;
		int64_t get() const { return m_t.get(); }
	};
	inline void check_no_leak() {
		if (g_tracked.live != 0) vrt::fail("LEAK: %lld tracked object(s) still alive", (long long)g_tracked.live);
		g_tracked = {};
		g_throw_copy = 0;
	}
	inline const int check_no_leak_reg = (vrt::on_reset(&check_no_leak), 0);

	// ------------------------------------------------------------ sizes
	// Number of elements for the scenarios that look for behaviour depending on the size alone (chunks, narrow counters,
	// index wrap-around). all: whether more than 65536 are affordable
	inline int bulk(bool all = true) {
		vrt::step_limit(20'000'000);
		switch (vrt::choose(8)) {
		case 0:
		case 1:
		case 2: return (int)vrt::range(1, 70);
		case 3:
		case 4: return (int)vrt::range(60, 300);
		case 5:
		case 6: return (int)vrt::range(250, 1100);
		default: return all && vrt::chance(1, 4) ? 65530 + (int)vrt::choose(16) : (int)vrt::range(1000, 4200);
		}
	}
	// ------------------------------------------------------------ detached coroutine of the harness
	inline int64_t g_co_live = 0;
	struct co {
		struct promise_type {
			promise_type() {
				vrt::Quiet q;
				g_co_live++;
			}
			~promise_type() {
				vrt::Quiet q;
				g_co_live--;
			}
			co get_return_object() noexcept { return {}; }
			std::suspend_never initial_suspend() noexcept { return {}; }
			std::suspend_never final_suspend() noexcept { return {}; }
			void return_void() noexcept {}
			void unhandled_exception() {
				try {
					throw;
				} catch (const std::exception& e) { vrt::fail("unexpected exception in a coroutine: %s", e.what()); } catch (...) {
					vrt::fail("unexpected exception in a coroutine");
				}
			}
		};
	};
	inline void check_no_co() {
		if (g_co_live != 0) vrt::fail("%lld coroutine(s) never finished", (long long)g_co_live);
	}
	// registered last-in: runs after each case
	inline const int check_no_co_reg = (vrt::on_reset(&check_no_co), 0);

	// Awaitable that suspends and stores the handle for manual resumption
	struct manual {
		std::coroutine_handle<>* slot;
		bool await_ready() const noexcept { return false; }
		void await_suspend(std::coroutine_handle<> h) noexcept { *slot = h; }
		void await_resume() const noexcept {}
	};

	// ------------------------------------------------------------ dispatchers of the harness
	// Queues callbacks; they run when the owner drains it (possibly on a thread of its own).
	class QueueDispatcher : public asyncpp::dispatcher {
		std::vmutex m_mtx;
		std::vcondition_variable m_cv;
		std::deque<std::function<void()>> m_q;
		bool m_stop = false;
		std::vthread m_thread;

	public:
		int id = 0;
		std::size_t pushed = 0; // under lock
		explicit QueueDispatcher(int i = 0) : id(i) {}
		~QueueDispatcher() { stop(); }
		void push(std::function<void()> fn) override {
			std::lock_guard l(m_mtx);
			if (!fn) vrt::fail("an empty function was pushed to a dispatcher");
			m_q.push_back(std::move(fn));
			pushed++;
			m_cv.notify_all();
		}
		std::size_t pending() {
			std::lock_guard l(m_mtx);
			return m_q.size();
		}
		bool run_one() {
			std::function<void()> f;
			{
				std::lock_guard l(m_mtx);
				if (m_q.empty()) return false;
				f = std::move(m_q.front());
				m_q.pop_front();
			}
			auto old = asyncpp::dispatcher::current(this);
			f();
			f = nullptr;
			asyncpp::dispatcher::current(old);
			return true;
		}
		void drain() {
			while (run_one())
				;
		}
		void start() {
			m_thread = std::vthread([this] {
				asyncpp::dispatcher::current(this);
				while (true) {
					std::function<void()> f;
					{
						std::unique_lock l(m_mtx);
						while (m_q.empty() && !m_stop)
							m_cv.wait(l);
						if (m_q.empty()) break;
						f = std::move(m_q.front());
						m_q.pop_front();
					}
					f();
				}
				asyncpp::dispatcher::current(nullptr);
			});
		}
		void stop() {
			if (!m_thread.joinable()) return;
			{
				std::lock_guard l(m_mtx);
				m_stop = true;
				m_cv.notify_all();
			}
			m_thread.join();
		}
	};
	// Event log kept out of TSan's sight
	template<typename E>
	struct Log {
		std::vector<E> v;
		void add(E e) {
			vrt::Quiet q;
			v.push_back(std::move(e));
		}
	};
	// counters / flags invisible to TSan
	template<typename F>
	inline auto quiet(F&& f) {
		vrt::Quiet q;
		return f();
	}
	// Run f with one of its first allocations failing (chosen, possibly none). Returns whether it failed
	template<typename F>
	inline bool out_of_memory(F&& f, uint32_t allocations = 3) {
#if VRT_TSAN // allocations are not intercepted
		f();
		return false;
#else
		vrt::fail_alloc_after((int64_t)vrt::choose(allocations + 1));
		try {
			f();
		} catch (const std::bad_alloc&) {
			vrt::fail_alloc_after(0);
			vrt::label("out of memory");
			return true;
		}
		vrt::fail_alloc_after(0);
		return false;
#endif
	}
	inline void join_all(std::vector<std::vthread>& ts) {
		for (auto& t : ts)
			t.join();
		ts.clear();
	}
} // namespace h
int main(int argc, char** argv) {
	return vrt::main(argc, argv);
}
