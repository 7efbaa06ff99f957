// Redirects the synchronisation vocabulary of the standard library to versions whose every
// operation is a schedule point owned by the harness. Include before any asyncpp header.
#pragma once
#include "vrt.h"

namespace std {
	// ------------------------------------------------------------ atomic
#if VRT_TSAN
	// ThreadSanitizer does not model fences: a thread that ever used a release fence releases with all of its later
	// stores, and an acquire fence acquires from the atomics the thread read last. Both err on the side of silence.
	struct vrt_fences {
		const void* read[16]{};
		unsigned next{};
		bool released{};
		static vrt_fences& mine() noexcept {
			static thread_local vrt_fences f;
			return f;
		}
	};
#endif
	inline void vrt_read([[maybe_unused]] const void* at) noexcept {
#if VRT_TSAN
		auto& f = vrt_fences::mine();
		if (f.read[(f.next - 1) % 16] != at) f.read[f.next++ % 16] = at;
#endif
	}
	inline memory_order vrt_write(memory_order o) noexcept {
#if VRT_TSAN
		if (vrt_fences::mine().released) {
			if (o == memory_order_relaxed) return memory_order_release;
			if (o == memory_order_acquire || o == memory_order_consume) return memory_order_acq_rel;
		}
#endif
		return o;
	}
	template<typename T>
	class vatomic {
		std::atomic<T> m_v;
		struct Scope {
			Scope() { ::vrt::point(); }
			~Scope() { ::vrt::point_after(); }
		};

	public:
		using value_type = T;
		using difference_type = T;
		static constexpr bool is_always_lock_free = std::atomic<T>::is_always_lock_free;
		constexpr vatomic() noexcept(std::is_nothrow_default_constructible_v<T>) : m_v(T()) {}
		constexpr vatomic(T v) noexcept : m_v(std::move(v)) {}
		vatomic(const vatomic&) = delete;
		vatomic& operator=(const vatomic&) = delete;
		bool is_lock_free() const noexcept { return m_v.is_lock_free(); }
		T operator=(T v) noexcept {
			store(v);
			return v;
		}
		operator T() const noexcept { return load(); }
		void store(T v, memory_order o = memory_order_seq_cst) noexcept {
			Scope s;
			m_v.store(std::move(v), vrt_write(o));
		}
		T load(memory_order o = memory_order_seq_cst) const noexcept {
			::vrt::point();
			vrt_read(&m_v);
			return m_v.load(o);
		}
		T exchange(T v, memory_order o = memory_order_seq_cst) noexcept {
			Scope s;
			vrt_read(&m_v);
			return m_v.exchange(std::move(v), vrt_write(o));
		}
		bool compare_exchange_strong(T& e, T d, memory_order a, memory_order b) noexcept {
			Scope s;
			vrt_read(&m_v);
			return m_v.compare_exchange_strong(e, std::move(d), vrt_write(a), b);
		}
		bool compare_exchange_strong(T& e, T d, memory_order a = memory_order_seq_cst) noexcept {
			Scope s;
			auto b = a == memory_order_acq_rel ? memory_order_acquire
											   : (a == memory_order_release ? memory_order_relaxed : a);
			vrt_read(&m_v);
			return m_v.compare_exchange_strong(e, std::move(d), vrt_write(a), b);
		}
		bool compare_exchange_weak(T& e, T d, memory_order a, memory_order b) noexcept {
			Scope s;
			if (::vrt::active() && ::vrt::spurious_mode() && ::vrt::sched_choose(2, 1, 6) == 1) {
				vrt_read(&m_v);
				e = m_v.load(b);
				return false;
			}
			vrt_read(&m_v);
			return m_v.compare_exchange_strong(e, std::move(d), vrt_write(a), b);
		}
		bool compare_exchange_weak(T& e, T d, memory_order a = memory_order_seq_cst) noexcept {
			auto b = a == memory_order_acq_rel ? memory_order_acquire
											   : (a == memory_order_release ? memory_order_relaxed : a);
			return compare_exchange_weak(e, std::move(d), a, b);
		}
#define VRT_FETCH(op)                                                                                                  \
	template<typename U>                                                                                               \
	T fetch_##op(U v, memory_order o = memory_order_seq_cst) noexcept {                                                \
		Scope s;                                                                                                       \
		vrt_read(&m_v);                                                                                                \
		return m_v.fetch_##op(v, vrt_write(o));                                                                        \
	}
		VRT_FETCH(add)
		VRT_FETCH(sub)
		VRT_FETCH(and)
		VRT_FETCH(or)
		VRT_FETCH(xor)
#undef VRT_FETCH
		T operator++() noexcept { return fetch_add(1) + 1; }
		T operator++(int) noexcept { return fetch_add(1); }
		T operator--() noexcept { return fetch_sub(1) - 1; }
		T operator--(int) noexcept { return fetch_sub(1); }
		template<typename U>
		T operator+=(U v) noexcept {
			return fetch_add(v) + v;
		}
		template<typename U>
		T operator-=(U v) noexcept {
			return fetch_sub(v) - v;
		}
		template<typename U>
		T operator|=(U v) noexcept {
			return fetch_or(v) | v;
		}
		template<typename U>
		T operator&=(U v) noexcept {
			return fetch_and(v) & v;
		}
		template<typename U>
		T operator^=(U v) noexcept {
			return fetch_xor(v) ^ v;
		}
		void wait(T old, memory_order o = memory_order_seq_cst) const noexcept {
			while (load(o) == old)
				::vrt::block_on(this, "atomic::wait");
		}
		void notify_one() noexcept {
			::vrt::point();
			::vrt::wake_one(this);
		}
		void notify_all() noexcept {
			::vrt::point();
			::vrt::wake_all(this);
		}
	};
	class vatomic_flag {
		vatomic<bool> m_b{false};

	public:
		constexpr vatomic_flag() noexcept = default;
		constexpr vatomic_flag(bool v) noexcept : m_b(v) {} // ATOMIC_FLAG_INIT
		bool test_and_set(memory_order o = memory_order_seq_cst) noexcept { return m_b.exchange(true, o); }
		void clear(memory_order o = memory_order_seq_cst) noexcept { m_b.store(false, o); }
		bool test(memory_order o = memory_order_seq_cst) const noexcept { return m_b.load(o); }
		void wait(bool v, memory_order o = memory_order_seq_cst) const noexcept { m_b.wait(v, o); }
		void notify_one() noexcept { m_b.notify_one(); }
		void notify_all() noexcept { m_b.notify_all(); }
	};
	inline void vatomic_thread_fence(memory_order o) noexcept {
		::vrt::point();
#if !VRT_TSAN
		std::atomic_thread_fence(o);
#else
		auto& f = vrt_fences::mine();
		if (o == memory_order_acquire || o == memory_order_consume || o == memory_order_acq_rel || o == memory_order_seq_cst)
			for (auto at : f.read)
				if (at) __tsan_acquire(const_cast<void*>(at));
		if (o == memory_order_release || o == memory_order_acq_rel || o == memory_order_seq_cst) f.released = true;
#endif
	}
	// the free functions
#define VRT_FREE(name)                                                                                                 \
	template<typename T, typename... A>                                                                                \
	inline auto atomic_##name(vatomic<T>* at, A&&... args) noexcept {                                                  \
		return at->name(std::forward<A>(args)...);                                                                     \
	}                                                                                                                  \
	template<typename T, typename... A>                                                                                \
	inline auto atomic_##name##_explicit(vatomic<T>* at, A&&... args) noexcept {                                       \
		return at->name(std::forward<A>(args)...);                                                                     \
	}
	VRT_FREE(store)
	VRT_FREE(exchange)
	VRT_FREE(fetch_add)
	VRT_FREE(fetch_sub)
	VRT_FREE(fetch_and)
	VRT_FREE(fetch_or)
	VRT_FREE(fetch_xor)
	VRT_FREE(wait)
#undef VRT_FREE
	template<typename T>
	inline T atomic_load(const vatomic<T>* at) noexcept {
		return at->load();
	}
	template<typename T>
	inline T atomic_load_explicit(const vatomic<T>* at, memory_order o) noexcept {
		return at->load(o);
	}
#define VRT_FREE(strength)                                                                                             \
	template<typename T, typename D>                                                                                   \
	inline bool atomic_compare_exchange_##strength(vatomic<T>* at, T* e, D d) noexcept {                               \
		return at->compare_exchange_##strength(*e, static_cast<T>(d));                                                 \
	}                                                                                                                  \
	template<typename T, typename D>                                                                                   \
	inline bool atomic_compare_exchange_##strength##_explicit(vatomic<T>* at, T* e, D d, memory_order a,               \
															  memory_order b) noexcept {                               \
		return at->compare_exchange_##strength(*e, static_cast<T>(d), a, b);                                           \
	}
	VRT_FREE(strong)
	VRT_FREE(weak)
#undef VRT_FREE
	template<typename T>
	inline void atomic_notify_one(vatomic<T>* at) noexcept {
		at->notify_one();
	}
	template<typename T>
	inline void atomic_notify_all(vatomic<T>* at) noexcept {
		at->notify_all();
	}

	// ------------------------------------------------------------ mutexes
	class vmutex {
		std::mutex m_real;
		int m_owner = -1;
		bool m_dead = false;

	public:
		using native_handle_type = void*;
		constexpr vmutex() noexcept = default;
		vmutex(const vmutex&) = delete;
		vmutex& operator=(const vmutex&) = delete;
		~vmutex() {
			if (::vrt::active()) {
				if (m_owner != -1) ::vrt::fail("a locked std::mutex is destroyed (owner T%d)", m_owner);
				if (::vrt::waiters(this)) ::vrt::fail("a std::mutex is destroyed while a thread waits for it");
			}
		}
		void lock() {
			::vrt::point();
			if (::vrt::active()) {
				if (owner() == ::vrt::self()) ::vrt::fail("DEADLOCK: std::mutex locked again by the thread owning it");
				while (owner() != -1)
					::vrt::block_on(this, "std::mutex::lock");
			}
			m_real.lock();
			set_owner(::vrt::self());
		}
		bool try_lock() {
			::vrt::point();
			if (::vrt::active() && owner() != -1) return false;
			if (::vrt::active() && ::vrt::spurious_mode() && ::vrt::sched_choose(2, 1, 10) == 1) return false;
			if (!m_real.try_lock()) return false;
			set_owner(::vrt::self());
			return true;
		}
		void unlock() {
			if (::vrt::active() && owner() != ::vrt::self())
				::vrt::fail("a std::mutex is unlocked by a thread that does not own it");
			::vrt::point();
			set_owner(-1);
			m_real.unlock();
			::vrt::wake_all(this);
			::vrt::point_after();
		}
		// The bookkeeping must not be visible to TSan
		__attribute__((no_sanitize("thread"))) int owner() const { return *(volatile int*)&m_owner; }
		__attribute__((no_sanitize("thread"))) void set_owner(int o) { *(volatile int*)&m_owner = o; }
	};
	class vrecursive_mutex {
		vmutex m;
		int m_depth = 0;

	public:
		void lock() {
			if (m.owner() == ::vrt::self() && m.owner() != -1) {
				m_depth++;
				return;
			}
			m.lock();
			m_depth = 1;
		}
		bool try_lock() {
			if (m.owner() == ::vrt::self() && m.owner() != -1) {
				m_depth++;
				return true;
			}
			if (!m.try_lock()) return false;
			m_depth = 1;
			return true;
		}
		void unlock() {
			if (--m_depth == 0) m.unlock();
		}
	};
	class vshared_mutex {
		std::shared_mutex m_real;
		int m_writer = -1;
		int m_readers = 0;

		__attribute__((no_sanitize("thread"))) int rd() const { return *(volatile int*)&m_readers; }
		__attribute__((no_sanitize("thread"))) int wr() const { return *(volatile int*)&m_writer; }
		__attribute__((no_sanitize("thread"))) void rd(int d) { *(volatile int*)&m_readers += d; }
		__attribute__((no_sanitize("thread"))) void wr(int o) { *(volatile int*)&m_writer = o; }

	public:
		vshared_mutex() = default;
		vshared_mutex(const vshared_mutex&) = delete;
		~vshared_mutex() {
			if (::vrt::active()) {
				if (wr() != -1 || rd() != 0) ::vrt::fail("a locked std::shared_mutex is destroyed");
				if (::vrt::waiters(this)) ::vrt::fail("a std::shared_mutex is destroyed while a thread waits for it");
			}
		}
		void lock() {
			::vrt::point();
			if (::vrt::active()) {
				if (wr() == ::vrt::self()) ::vrt::fail("DEADLOCK: std::shared_mutex locked again by its owner");
				while (wr() != -1 || rd() != 0)
					::vrt::block_on(this, "std::shared_mutex::lock");
			}
			m_real.lock();
			wr(::vrt::self());
		}
		bool try_lock() {
			::vrt::point();
			if (::vrt::active() && (wr() != -1 || rd() != 0)) return false;
			if (!m_real.try_lock()) return false;
			wr(::vrt::self());
			return true;
		}
		void unlock() {
			::vrt::point();
			wr(-1);
			m_real.unlock();
			::vrt::wake_all(this);
			::vrt::point_after();
		}
		void lock_shared() {
			::vrt::point();
			if (::vrt::active()) {
				if (wr() == ::vrt::self()) ::vrt::fail("DEADLOCK: std::shared_mutex shared-locked by its exclusive owner");
				while (wr() != -1)
					::vrt::block_on(this, "std::shared_mutex::lock_shared");
			}
			m_real.lock_shared();
			rd(1);
		}
		bool try_lock_shared() {
			::vrt::point();
			if (::vrt::active() && wr() != -1) return false;
			if (!m_real.try_lock_shared()) return false;
			rd(1);
			return true;
		}
		void unlock_shared() {
			::vrt::point();
			rd(-1);
			m_real.unlock_shared();
			::vrt::wake_all(this);
			::vrt::point_after();
		}
	};

	// ------------------------------------------------------------ clock
	namespace chrono {
		struct vsteady_clock {
			using duration = std::chrono::nanoseconds;
			using rep = duration::rep;
			using period = duration::period;
			using time_point = std::chrono::time_point<vsteady_clock, duration>;
			static constexpr bool is_steady = true;
			static time_point now() noexcept {
				::vrt::point();
				return time_point(duration(::vrt::now_ns()));
			}
		};
		struct vsystem_clock {
			using duration = std::chrono::nanoseconds;
			using rep = duration::rep;
			using period = duration::period;
			using time_point = std::chrono::time_point<vsystem_clock, duration>;
			static constexpr bool is_steady = false;
			static time_point now() noexcept {
				::vrt::point();
				return time_point(duration(::vrt::now_ns()));
			}
			static std::time_t to_time_t(const time_point& t) noexcept {
				return std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count();
			}
		};
	} // namespace chrono
	namespace vrt_detail {
		template<typename D>
		inline int64_t to_ns(D d) {
			// saturating
			using ld = std::chrono::duration<long double, std::nano>;
			long double x = std::chrono::duration_cast<ld>(d).count();
			if (x > 9.0e18L) return INT64_MAX;
			if (x < -9.0e18L) return INT64_MIN;
			return (int64_t)ceill(x);
		}
		template<typename C, typename D>
		inline int64_t deadline(const std::chrono::time_point<C, D>& t) {
			return to_ns(t.time_since_epoch());
		}
		inline int64_t deadline_in(int64_t d) {
			int64_t n = ::vrt::now_ns();
			if (d > 0 && n > INT64_MAX - d) return INT64_MAX;
			return n + d;
		}
	} // namespace vrt_detail

	// ------------------------------------------------------------ condition variable
	class vcondition_variable {
		char m_key[2]{};

		template<typename L>
		bool do_wait(L& l, bool timed, int64_t dl) {
			::vrt::point();
			if (::vrt::spurious_mode() && ::vrt::sched_choose(2, 1, 8) == 1) {
				l.unlock();
				l.lock();
				return true;
			}
			// Atomically release the lock and start to wait: registering first is only
			// possible by blocking, so release without a schedule point in between.
			unlock_nopoint(l);
			bool r = true;
			if (timed)
				r = ::vrt::block_until(m_key, dl, "condition_variable::wait_until");
			else
				::vrt::block_on(m_key, "condition_variable::wait");
			l.lock();
			return r;
		}
		struct NoPoint;
		template<typename L>
		void unlock_nopoint(L& l);

	public:
		vcondition_variable() = default;
		vcondition_variable(const vcondition_variable&) = delete;
		~vcondition_variable() {
			if (::vrt::active() && ::vrt::waiters(m_key))
				::vrt::fail("a std::condition_variable is destroyed while a thread waits on it");
		}
		void touch() const { (void)*(const volatile char*)m_key; }
		void notify_one() noexcept {
			::vrt::point();
			touch();
			::vrt::wake_one(m_key);
			::vrt::point_after();
		}
		void notify_all() noexcept {
			::vrt::point();
			touch();
			::vrt::wake_all(m_key);
			::vrt::point_after();
		}
		template<typename L>
		void wait(L& l) {
			do_wait(l, false, 0);
		}
		template<typename L, typename P>
		void wait(L& l, P p) {
			while (!p())
				wait(l);
		}
		template<typename L, typename C, typename D>
		cv_status wait_until(L& l, const chrono::time_point<C, D>& t) {
			return do_wait(l, true, vrt_detail::deadline(t)) ? cv_status::no_timeout : cv_status::timeout;
		}
		template<typename L, typename C, typename D, typename P>
		bool wait_until(L& l, const chrono::time_point<C, D>& t, P p) {
			while (!p())
				if (wait_until(l, t) == cv_status::timeout) return p();
			return true;
		}
		template<typename L, typename R, typename P>
		cv_status wait_for(L& l, const chrono::duration<R, P>& d) {
			return do_wait(l, true, vrt_detail::deadline_in(vrt_detail::to_ns(d))) ? cv_status::no_timeout
																				   : cv_status::timeout;
		}
		template<typename L, typename R, typename P, typename Pred>
		bool wait_for(L& l, const chrono::duration<R, P>& d, Pred p) {
			int64_t dl = vrt_detail::deadline_in(vrt_detail::to_ns(d));
			while (!p())
				if (!do_wait(l, true, dl)) return p();
			return true;
		}
	};
} // namespace std
namespace std {
	template<typename L>
	void vcondition_variable::unlock_nopoint(L& l) {
		::vrt::suppress_points(1);
		l.unlock();
		::vrt::suppress_points(-1);
	}

	// ------------------------------------------------------------ threads
	// Reproducible thread ids (real ones depend on the address space layout)
	struct vthread_id {
		int v = -1;
		friend bool operator==(const vthread_id&, const vthread_id&) = default;
		friend auto operator<=>(const vthread_id&, const vthread_id&) = default;
		template<typename C, typename T>
		friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& o, vthread_id i) {
			return o << i.v;
		}
	};
	template<>
	struct hash<vthread_id> {
		size_t operator()(const vthread_id& i) const noexcept { return (size_t)(i.v + 2) * 2654435761u; }
	};
	class vthread {
		std::thread m_t;
		int m_id = -1;

	public:
		using id = vthread_id;
		using native_handle_type = std::thread::native_handle_type;
		vthread() noexcept = default;
		vthread(vthread&& o) noexcept : m_t(std::move(o.m_t)), m_id(std::exchange(o.m_id, -1)) {}
		vthread& operator=(vthread&& o) noexcept {
			m_t = std::move(o.m_t); // terminates if joinable, as required
			m_id = std::exchange(o.m_id, -1);
			return *this;
		}
		vthread(const vthread&) = delete;
		template<typename F, typename... A>
			requires(!std::is_same_v<std::remove_cvref_t<F>, vthread>)
		explicit vthread(F&& f, A&&... a) {
			if (!::vrt::active()) ::vrt::fail("a thread is created outside of a case");
			::vrt::point();
			if (::vrt::thread_start_fails()) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
			auto failures = ::vrt::pause_alloc_failures();
			m_id = ::vrt::thread_create();
			m_t = std::thread(
				[id = m_id](std::decay_t<F> fn, std::decay_t<A>... args) {
					::vrt::thread_enter(id);
					{
						auto f2 = std::move(fn);
						std::invoke(std::move(f2), std::move(args)...);
					}
					::vrt::thread_exit(id);
				},
				std::forward<F>(f), std::forward<A>(a)...);
			::vrt::pause_alloc_failures(failures);
			::vrt::point_after();
		}
		~vthread() = default;
		bool joinable() const noexcept { return m_t.joinable(); }
		id get_id() const noexcept { return m_t.joinable() ? id{m_id} : id{}; }
		native_handle_type native_handle() { return m_t.native_handle(); }
		static unsigned hardware_concurrency() noexcept { return 3; }
		void join() {
			::vrt::point();
			if (!m_t.joinable()) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
			if (m_t.get_id() == std::this_thread::get_id())
				::vrt::fail("DEADLOCK: a thread joins itself");
			while (!::vrt::thread_finished(m_id))
				::vrt::block_on(::vrt::thread_key(m_id), "thread::join");
			m_t.join();
			m_id = -1;
		}
		void detach() {
			::vrt::point();
			m_t.detach();
			m_id = -1;
		}
		void swap(vthread& o) noexcept {
			std::swap(m_t, o.m_t);
			std::swap(m_id, o.m_id);
		}
	};
	class vjthread : public vthread {
	public:
		using vthread::vthread;
		vjthread(vjthread&&) noexcept = default;
		vjthread& operator=(vjthread&& o) noexcept {
			if (joinable()) join();
			vthread::operator=(std::move(o));
			return *this;
		}
		~vjthread() {
			if (joinable()) join();
		}
	};
	namespace vthis_thread {
		inline vthread_id get_id() noexcept { return {::vrt::self()}; }
		inline void yield() noexcept { ::vrt::yield_point(); }
		template<typename R, typename P>
		inline void sleep_for(const chrono::duration<R, P>& d) {
			static char key;
			if (!::vrt::active()) return;
			int64_t dl = vrt_detail::deadline_in(vrt_detail::to_ns(d));
			while (::vrt::now_ns() < dl)
				::vrt::block_until(&key, dl, "sleep");
		}
		template<typename C, typename D>
		inline void sleep_until(const chrono::time_point<C, D>& t) {
			static char key;
			while (::vrt::now_ns() < vrt_detail::deadline(t))
				::vrt::block_until(&key, vrt_detail::deadline(t), "sleep");
		}
	} // namespace vthis_thread

	template<ptrdiff_t M = 1 << 20>
	class vcounting_semaphore {
		vmutex m;
		vcondition_variable c;
		ptrdiff_t n;

	public:
		explicit vcounting_semaphore(ptrdiff_t d) : n(d) {}
		static constexpr ptrdiff_t max() noexcept { return M; }
		void release(ptrdiff_t d = 1) {
			std::lock_guard<vmutex> l(m);
			n += d;
			c.notify_all();
		}
		void acquire() {
			std::unique_lock<vmutex> l(m);
			c.wait(l, [&] { return n > 0; });
			n--;
		}
		bool try_acquire() {
			std::lock_guard<vmutex> l(m);
			if (n <= 0) return false;
			n--;
			return true;
		}
		template<typename R, typename P>
		bool try_acquire_for(const chrono::duration<R, P>& d) {
			std::unique_lock<vmutex> l(m);
			if (!c.wait_for(l, d, [&] { return n > 0; })) return false;
			n--;
			return true;
		}
	};
	using vbinary_semaphore = vcounting_semaphore<1>;

	// ------------------------------------------------------------ timed mutexes, once
	template<bool Recursive>
	class vtimed_mutex_base {
		vmutex m;
		vcondition_variable c;
		int m_owner = -1, m_depth = 0;
		bool take() {
			if (m_depth != 0 && !(Recursive && m_owner == ::vrt::self())) return false;
			m_owner = ::vrt::self();
			m_depth++;
			return true;
		}

	public:
		void lock() {
			std::unique_lock<vmutex> l(m);
			if (!Recursive && m_depth != 0 && m_owner == ::vrt::self()) ::vrt::fail("DEADLOCK: std::timed_mutex locked again by the thread owning it");
			c.wait(l, [&] { return take(); });
		}
		bool try_lock() {
			std::unique_lock<vmutex> l(m);
			return take();
		}
		template<typename R, typename P>
		bool try_lock_for(const chrono::duration<R, P>& d) {
			std::unique_lock<vmutex> l(m);
			return c.wait_for(l, d, [&] { return take(); });
		}
		template<typename C, typename D>
		bool try_lock_until(const chrono::time_point<C, D>& t) {
			std::unique_lock<vmutex> l(m);
			return c.wait_until(l, t, [&] { return take(); });
		}
		void unlock() {
			std::unique_lock<vmutex> l(m);
			if (m_depth == 0 || m_owner != ::vrt::self()) ::vrt::fail("a std::timed_mutex is unlocked by a thread that does not own it");
			if (--m_depth == 0) c.notify_all();
		}
	};
	class vtimed_mutex : public vtimed_mutex_base<false> {};
	class vrecursive_timed_mutex : public vtimed_mutex_base<true> {};
	struct vonce_flag {
		vmutex m;
		vatomic<bool> done{false};
		vonce_flag() = default;
		vonce_flag(const vonce_flag&) = delete;
	};
	template<typename F, typename... A>
	void vcall_once(vonce_flag& o, F&& f, A&&... a) {
		if (o.done.load()) return;
		std::lock_guard<vmutex> l(o.m);
		if (o.done.load()) return;
		std::invoke(std::forward<F>(f), std::forward<A>(a)...);
		o.done.store(true);
	}
} // namespace std

#ifndef VRT_NOSHIM // (only compiled, never run, without)
#define atomic vatomic
#define atomic_flag vatomic_flag
#define atomic_bool vatomic<bool>
#define atomic_int vatomic<int>
#define atomic_uint vatomic<unsigned>
#define atomic_long vatomic<long>
#define atomic_ulong vatomic<unsigned long>
#define atomic_llong vatomic<long long>
#define atomic_ullong vatomic<unsigned long long>
#define atomic_int32_t vatomic<std::int32_t>
#define atomic_int64_t vatomic<std::int64_t>
#define atomic_uint8_t vatomic<std::uint8_t>
#define atomic_uint16_t vatomic<std::uint16_t>
#define atomic_intptr_t vatomic<std::intptr_t>
#define atomic_ptrdiff_t vatomic<std::ptrdiff_t>
#define atomic_size_t vatomic<std::size_t>
#define atomic_uintptr_t vatomic<std::uintptr_t>
#define atomic_uint32_t vatomic<std::uint32_t>
#define atomic_uint64_t vatomic<std::uint64_t>
#define atomic_thread_fence vatomic_thread_fence
#define mutex vmutex
#define recursive_mutex vrecursive_mutex
#define shared_mutex vshared_mutex
#define timed_mutex vtimed_mutex
#define recursive_timed_mutex vrecursive_timed_mutex
#define once_flag vonce_flag
#define call_once vcall_once
#define condition_variable vcondition_variable
#define condition_variable_any vcondition_variable
#define thread vthread
#define jthread vjthread
#define this_thread vthis_thread
#define steady_clock vsteady_clock
#define high_resolution_clock vsteady_clock
#define system_clock vsystem_clock
#define counting_semaphore vcounting_semaphore
#define binary_semaphore vbinary_semaphore
#endif

#ifndef ASYNCPP_FORCE_CUSTOM_STOP_TOKEN
#define ASYNCPP_FORCE_CUSTOM_STOP_TOKEN 1
#endif
