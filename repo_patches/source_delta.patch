From 4cacf1655c1f15d278808035cdf26e6e99189028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 01/69] fix: multi_consumer_event::set() only returns true if a
 coroutine was waiting

---
 include/asyncpp/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index e6092e3..ed4e5bc 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -339,7 +339,7 @@ namespace asyncpp {
          */
 		bool set(dispatcher* resume_dispatcher = nullptr) noexcept {
 			auto state = m_state.exchange(this, std::memory_order::acq_rel);
-			if (state == this) return false;
+			if (state == this || state == nullptr) return false;
 			auto await = static_cast<awaiter*>(state);
 			while (await != nullptr) {
 				auto next = await->m_next;
-- 
2.43.0


From b85e7ed8ba39bd677383529c895108f98231aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 02/69] fix: multi_consumer_auto_reset_event retry loop must
 not enqueue with a stale next pointer

---
 include/asyncpp/event.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index ed4e5bc..b2cf2a9 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -565,7 +565,7 @@ namespace asyncpp {
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
 				void* old_state = m_parent->m_state.load(std::memory_order::acquire);
-				do {
+				while (true) {
 					// If the event is set, reset it and resume the coroutine
 					if (old_state == m_parent) {
 						if (m_parent->m_state.compare_exchange_weak( //
@@ -577,9 +577,10 @@ namespace asyncpp {
 					}
 					// The event is unset, add the existing awaiter (if any) to the list and suspend the coroutine
 					m_next = static_cast<awaiter*>(old_state);
-				} while (!m_parent->m_state.compare_exchange_weak( //
-					old_state, this, std::memory_order::release, std::memory_order::acquire));
-				return true;
+					if (m_parent->m_state.compare_exchange_weak( //
+							old_state, this, std::memory_order::release, std::memory_order::acquire))
+						return true;
+				}
 			}
 			constexpr void await_resume() const noexcept {}
 
-- 
2.43.0


From 763a2d2cbc8215dcf438c12eba6df212d74a1c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 03/69] fix: consuming a set multi_consumer_auto_reset_event
 needs acquire semantics

---
 include/asyncpp/event.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index b2cf2a9..1dd56f7 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -560,7 +560,7 @@ namespace asyncpp {
 				//       because in that case we just enter the main loop in await_suspend
 				// Returns true if the value was updated (i.e. old_state equalled m_parent and cas succeeded)
 				return m_parent->m_state.compare_exchange_weak( //
-					old_state, nullptr, std::memory_order::release, std::memory_order::acquire);
+					old_state, nullptr, std::memory_order::acquire, std::memory_order::acquire);
 			}
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
@@ -569,7 +569,7 @@ namespace asyncpp {
 					// If the event is set, reset it and resume the coroutine
 					if (old_state == m_parent) {
 						if (m_parent->m_state.compare_exchange_weak( //
-								old_state, nullptr, std::memory_order::release, std::memory_order::acquire))
+								old_state, nullptr, std::memory_order::acquire, std::memory_order::acquire))
 							return false;
 						// the state changed between load and compare (either because another coroutine was faster or the event was reset).
 						// Retry from the start
-- 
2.43.0


From a4627b2d5fce7d7b135543a103dd4966742e9299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 04/69] fix: multi_consumer_auto_reset_event::set() needs
 acquire semantics when taking the waiter list

---
 include/asyncpp/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index 1dd56f7..b4b0156 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -489,7 +489,7 @@ namespace asyncpp {
 				await = static_cast<awaiter*>(old_state);
 				// if the event had awaiters we update the state to "unset", if it was previously unset we transition to set
 				new_state = (old_state == nullptr) ? this : nullptr;
-			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::release,
+			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::acq_rel,
 													std::memory_order::acquire));
 
 			// Execute the awaiters (if any)
-- 
2.43.0


From 78789c8e9d4257a88fc0a75a68873db3cf404789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 05/69] fix: latch::decrement() must release waiters when the
 count reaches zero

---
 include/asyncpp/latch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/latch.h b/include/asyncpp/latch.h
index 2099ddd..b8fe44e 100644
--- a/include/asyncpp/latch.h
+++ b/include/asyncpp/latch.h
@@ -39,7 +39,7 @@ namespace asyncpp {
          * \note It is undefined if the sum of all decrement calls exceeds the counter value.
          */
 		void decrement(std::size_t n = 1) noexcept {
-			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == 0) { m_event.set(); }
+			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == n) { m_event.set(); }
 		}
 
 		/**
-- 
2.43.0


From e624039d019d186fe9a0adf15ab21d099a845e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 06/69] fix: mutex_lock must not claim ownership while unlock()
 resumes the next owner

---
 include/asyncpp/mutex.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/mutex.h b/include/asyncpp/mutex.h
index 7e32960..83bf4b0 100644
--- a/include/asyncpp/mutex.h
+++ b/include/asyncpp/mutex.h
@@ -143,11 +143,14 @@ namespace asyncpp {
 			other.m_locked = false;
 		}
 		mutex_lock& operator=(mutex_lock&& other) noexcept {
-			if (m_mtx != nullptr && m_locked) m_mtx->unlock();
+			if (this == &other) return *this;
+			auto* const old = m_locked ? m_mtx : nullptr;
 			m_mtx = other.m_mtx;
 			other.m_mtx = nullptr;
 			m_locked = other.m_locked;
 			other.m_locked = false;
+			// Unlock last because it might resume a coroutine that inspects this lock
+			if (old != nullptr) old->unlock();
 			return *this;
 		}
 		~mutex_lock() {
@@ -160,8 +163,9 @@ namespace asyncpp {
          */
 		void unlock() noexcept {
 			assert(m_locked);
-			m_mtx->unlock();
+			// Clear the flag first because unlock might resume a coroutine that inspects this lock
 			m_locked = false;
+			m_mtx->unlock();
 		}
 
 		/**
-- 
2.43.0


From bbe64ab1cb4056b5e04b8e27e2deab06c188b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 07/69] fix: channel::write() must report true if a reader was
 already waiting

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 6757539..41bbbda 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -281,6 +281,7 @@ namespace asyncpp {
 			lck.unlock();
 			// Copy the value over
 			rdr->m_result = std::move(m_value);
+			m_result = true;
 			// Resume reader
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
-- 
2.43.0


From 3608393ca900e5cc3f8d59dcacf131aa1222aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 08/69] fix: channel::close() must not hold its mutex while
 resuming coroutines

---
 include/asyncpp/channel.h | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 41bbbda..5d90051 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -7,6 +7,7 @@
 #include <cassert>
 #include <mutex>
 #include <optional>
+#include <utility>
 
 namespace asyncpp {
 
@@ -192,29 +193,28 @@ namespace asyncpp {
 		std::unique_lock lck{m_mtx};
 		if (!m_closed.exchange(true)) {
 			// This is the first close, so cancel all waiting awaiters
-			while (m_reader_list != nullptr) {
-				auto rdr = m_reader_list;
-				m_reader_list = rdr->m_next;
-				// We do not need to unlock, because all further attempts to access this
-				// cannel will get refused.
-				rdr->m_result.reset();
+			auto rdr = std::exchange(m_reader_list, nullptr);
+			auto wrt = std::exchange(m_writer_list, nullptr);
+			// All further attempts to access this channel will get refused. Unlock because
+			// we resume foreign code, which is free to destroy the channel.
+			lck.unlock();
+			while (rdr != nullptr) {
+				auto current = std::exchange(rdr, rdr->m_next);
+				current->m_result.reset();
 				// Resume reader
-				if (rdr->m_dispatcher != nullptr)
-					rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
+				if (current->m_dispatcher != nullptr)
+					current->m_dispatcher->push([current]() { current->m_handle.resume(); });
 				else
-					rdr->m_handle.resume();
+					current->m_handle.resume();
 			}
-			while (m_writer_list != nullptr) {
-				auto wrt = m_writer_list;
-				m_writer_list = wrt->m_next;
-				// We do not need to unlock, because all further attempts to access this
-				// cannel will get refused.
-				wrt->m_result = false;
-				// Resume reader
-				if (wrt->m_dispatcher != nullptr)
-					wrt->m_dispatcher->push([wrt]() { wrt->m_handle.resume(); });
+			while (wrt != nullptr) {
+				auto current = std::exchange(wrt, wrt->m_next);
+				current->m_result = false;
+				// Resume writer
+				if (current->m_dispatcher != nullptr)
+					current->m_dispatcher->push([current]() { current->m_handle.resume(); });
 				else
-					wrt->m_handle.resume();
+					current->m_handle.resume();
 			}
 		}
 	}
-- 
2.43.0


From d36ed6ef29c376ac1932da4e363275a45ffc9b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 09/69] fix: channel::read() must not wait on a concurrently
 closed channel

---
 include/asyncpp/channel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 5d90051..007bfa9 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -229,6 +229,8 @@ namespace asyncpp {
 		m_handle = hndl;
 		m_next = nullptr;
 		std::unique_lock lck{m_parent->m_mtx};
+		// The channel might have been closed after await_ready() was called
+		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a writer waiting
 		if (auto wrt = m_parent->m_writer_list; wrt != nullptr) {
 			// Unhook writer
-- 
2.43.0


From 3fb172a0ac73a645d44d92f44d6ef33c78ea3f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 10/69] fix: queue::try_emplace() constructs values alike with
 a waiting pop and survives throwing constructors

---
 include/asyncpp/queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 547588d..7c22ded 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -249,11 +249,13 @@ namespace asyncpp {
 		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
+			// Construct the value first, the task needs to stay queued if this throws
+			T value(std::forward<Args>(args)...);
 			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
 			lck.unlock();
-			awaiter->resume(T{std::forward<Args>(args)...});
+			awaiter->resume(std::move(value));
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.emplace(std::forward<Args>(args)...);
-- 
2.43.0


From 588502b0a6e9ba5b7af41ecbdab6d0e158a5a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 11/69] fix: queue with a maximum size of zero must hand items
 over directly

---
 include/asyncpp/queue.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 7c22ded..f364f44 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -225,8 +225,6 @@ namespace asyncpp {
 	template<typename T, typename TContainer>
 	inline bool queue<T, TContainer>::try_push(T&& value) {
 		std::unique_lock lck{m_mtx};
-		// Early exit if we are oversized
-		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			m_pop_list = awaiter->m_next;
@@ -235,6 +233,8 @@ namespace asyncpp {
 			lck.unlock();
 			awaiter->resume(std::forward<T>(value));
 		} else {
+			// Exit if we are oversized
+			if (m_queue.size() >= m_max_size) return false;
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.push(std::forward<T>(value));
 		}
@@ -245,8 +245,6 @@ namespace asyncpp {
 	template<typename... Args>
 	inline bool queue<T, TContainer>::try_emplace(Args&&... args) {
 		std::unique_lock lck{m_mtx};
-		// Early exit if we are oversized
-		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			// Construct the value first, the task needs to stay queued if this throws
@@ -257,6 +255,8 @@ namespace asyncpp {
 			lck.unlock();
 			awaiter->resume(std::move(value));
 		} else {
+			// Exit if we are oversized
+			if (m_queue.size() >= m_max_size) return false;
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.emplace(std::forward<Args>(args)...);
 		}
@@ -267,7 +267,16 @@ namespace asyncpp {
 	inline std::optional<T> queue<T, TContainer>::try_pop() {
 		std::unique_lock lck{m_mtx};
 		// Early out if the queue is empty
-		if (m_queue.empty()) return std::nullopt;
+		if (m_queue.empty()) {
+			// If the queue can not store items we take it directly from a task waiting in push
+			auto awaiter = m_push_list;
+			if (awaiter == nullptr) return std::nullopt;
+			m_push_list = awaiter->m_next;
+			lck.unlock();
+			std::optional<T> res{std::move(awaiter->m_value)};
+			awaiter->resume();
+			return res;
+		}
 		// Pop the first value
 		std::optional<T> res{std::move(m_queue.front())};
 		m_queue.pop();
@@ -328,6 +337,14 @@ namespace asyncpp {
 	inline bool queue<T, TContainer>::pop_awaiter::await_ready() {
 		std::unique_lock lck{m_parent->m_mtx};
 		if (m_parent->m_queue.empty()) {
+			// If the queue can not store items we take it directly from a task waiting in push
+			if (auto awaiter = m_parent->m_push_list; awaiter != nullptr) {
+				m_parent->m_push_list = awaiter->m_next;
+				lck.unlock();
+				m_result.emplace(std::move(awaiter->m_value));
+				awaiter->resume();
+				return true;
+			}
 			lck.release(); // We unlock inside suspend
 			return false;
 		}
-- 
2.43.0


From 08ef88105c7d921d31d521b8728bfaa6e54053a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 12/69] fix: promise stays pending if constructing the value
 throws

---
 include/asyncpp/promise.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0360c71..0e3655f 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -30,10 +30,21 @@ namespace asyncpp {
 			std::vector<std::function<void(const T&)>> m_on_fulfill{};
 			std::vector<std::function<void(const TError&)>> m_on_reject{};
 
+			template<size_t Index>
+			void emplace_value(auto&& value) {
+				try {
+					m_value.template emplace<Index>(std::forward<decltype(value)>(value));
+				} catch (...) {
+					// Constructing the value failed, so we are still pending
+					m_value.template emplace<pending_index>();
+					throw;
+				}
+			}
+
 			bool try_fulfill(auto&& value) {
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
-				m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				emplace_value<fulfilled_index>(std::forward<decltype(value)>(value));
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto fulfill_cbs = std::move(m_on_fulfill);
@@ -58,7 +69,7 @@ namespace asyncpp {
 			bool try_reject(auto&& value) {
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
-				m_value.template emplace<rejected_index>(std::forward<decltype(value)>(value));
+				emplace_value<rejected_index>(std::forward<decltype(value)>(value));
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto reject_cbs = std::move(m_on_reject);
-- 
2.43.0


From fc0c63347879aead9fe94001340132efe434a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 13/69] fix: promise outcome must stay valid until all
 callbacks were notified

---
 include/asyncpp/promise.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0e3655f..a0ca36a 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -186,7 +186,7 @@ namespace asyncpp {
          * \note Callbacks and waiting coroutines are resumed inside this call.
          */
 		void fulfill(auto&& value) {
-			if (!m_state->try_fulfill(std::forward<decltype(value)>(value)))
+			if (!this->try_fulfill(std::forward<decltype(value)>(value)))
 				throw std::logic_error("promise is not pending");
 		}
 
@@ -196,7 +196,11 @@ namespace asyncpp {
          * \param value The value to store inside the promise
          * \note Callbacks and waiting coroutines are resumed inside this call.
          */
-		bool try_fulfill(auto&& value) { return m_state->try_fulfill(std::forward<decltype(value)>(value)); }
+		bool try_fulfill(auto&& value) {
+			// Callbacks might drop the last promise, but the result needs to outlive all of them
+			const auto keep_alive = m_state;
+			return keep_alive->try_fulfill(std::forward<decltype(value)>(value));
+		}
 
 		/**
          * \brief Reject the promise with an exception
@@ -205,7 +209,7 @@ namespace asyncpp {
          * \note Callbacks and waiting coroutines are resumed inside this call
          */
 		void reject(std::exception_ptr error) {
-			if (!m_state->try_reject(std::forward<decltype(error)>(error)))
+			if (!this->try_reject(std::forward<decltype(error)>(error)))
 				throw std::logic_error("promise is not pending");
 		}
 
@@ -215,7 +219,11 @@ namespace asyncpp {
          * \param ex The exception to use for rejection
          * \note Callbacks and waiting coroutines are resumed inside this call
          */
-		bool try_reject(std::exception_ptr error) { return m_state->try_reject(std::forward<decltype(error)>(error)); }
+		bool try_reject(std::exception_ptr error) {
+			// Callbacks might drop the last promise, but the result needs to outlive all of them
+			const auto keep_alive = m_state;
+			return keep_alive->try_reject(std::forward<decltype(error)>(error));
+		}
 
 		/**
          * \brief Reject the promise with an exception
@@ -247,14 +255,18 @@ namespace asyncpp {
          */
 		void then(std::function<void(const TResult&)> then_cb,
 				  std::function<void(const std::exception_ptr&)> catch_cb) {
-			m_state->then(std::move(then_cb), std::move(catch_cb));
+			const auto keep_alive = m_state;
+			keep_alive->then(std::move(then_cb), std::move(catch_cb));
 		}
 
 		/**
          * \brief Register a callback to be executed once a result is available. If the promise is not pending the callback is directly executed.
          * \param cb Callback to invoke as soon as a result is available.
          */
-		void on_settle(std::function<void()> settle_cb) { m_state->on_settle(std::move(settle_cb)); }
+		void on_settle(std::function<void()> settle_cb) {
+			const auto keep_alive = m_state;
+			keep_alive->on_settle(std::move(settle_cb));
+		}
 
 		/**
          * \brief Synchronously get the result. If the promise is rejected the rejecting exception gets thrown.
-- 
2.43.0


From 999622bc83be363e94141c00245c267e96afb83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 14/69] fix: promise must not destroy callbacks while holding
 its mutex

---
 include/asyncpp/promise.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index a0ca36a..49c5af3 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -48,6 +48,8 @@ namespace asyncpp {
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto fulfill_cbs = std::move(m_on_fulfill);
+				// Destroyed without holding the lock because captures might use the promise
+				const auto reject_cbs = std::move(m_on_reject);
 				m_on_settle.clear();
 				m_on_fulfill.clear();
 				m_on_reject.clear();
@@ -73,6 +75,8 @@ namespace asyncpp {
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto reject_cbs = std::move(m_on_reject);
+				// Destroyed without holding the lock because captures might use the promise
+				const auto fulfill_cbs = std::move(m_on_fulfill);
 				m_on_settle.clear();
 				m_on_fulfill.clear();
 				m_on_reject.clear();
-- 
2.43.0


From 647183cfa99688b52449245a2b9b49cd2758388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 15/69] fix: promise_all() without arguments must be fulfilled

---
 include/asyncpp/promise.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 49c5af3..f8404a5 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -546,6 +546,8 @@ namespace asyncpp {
 			promise<void> result;
 		};
 		auto shared = std::make_shared<state>();
+		// There is nothing to wait for
+		if constexpr (sizeof...(args) == 0) shared->result.fulfill();
 		(args.on_settle([shared]() mutable {
 			auto curid = shared->count.fetch_add(1);
 			if (curid + 1 == sizeof...(args)) { shared->result.fulfill(); }
-- 
2.43.0


From 7e4019f391099b93ca8ce715a2780a6fd2d12179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:35 +0000
Subject: [PATCH 16/69] fix: promise_first_successful() must not reject if a
 promise is concurrently fulfilled

---
 include/asyncpp/promise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index f8404a5..746813e 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -521,8 +521,8 @@ namespace asyncpp {
 		promise<T> result_promise;
 		auto finished = std::make_shared<std::atomic<size_t>>(0);
 		(args.then(
-			 [result_promise, finished](const typename promise<TArgs>::result_type& res) mutable {
-				 finished->fetch_add(1);
+			 [result_promise](const typename promise<TArgs>::result_type& res) mutable {
+				 // Not counted as finished, a concurrently rejected promise must not reject the result
 				 result_promise.try_fulfill(res);
 			 },
 			 [result_promise, finished](const std::exception_ptr& exception) mutable {
-- 
2.43.0


From c81049e85b5a6ba150d621b4295ccee02666bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 17/69] fix: atomic_ref of more than one type could not be used
 in a translation unit

---
 include/asyncpp/ref.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 6ca7a8a..e875ea9 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -237,20 +237,15 @@ namespace asyncpp {
 	template<RefCountable T>
 	class atomic_ref {
 		friend struct std::hash<asyncpp::atomic_ref<T>>;
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const atomic_ref<T2>& rhs) noexcept {
-			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask) <=>
-				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask);
+		friend constexpr auto operator<=>(const atomic_ref& lhs, const atomic_ref& rhs) noexcept {
+			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask) <=>
+				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const T2* rhs) noexcept {
-			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask) <=>
-				   reinterpret_cast<uintptr_t>(rhs);
+		friend constexpr auto operator<=>(const atomic_ref& lhs, const T* rhs) noexcept {
+			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask) <=> reinterpret_cast<uintptr_t>(rhs);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const T2* lhs, const atomic_ref<T2>& rhs) noexcept {
-			return reinterpret_cast<uintptr_t>(lhs) <=>
-				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask);
+		friend constexpr auto operator<=>(const T* lhs, const atomic_ref& rhs) noexcept {
+			return reinterpret_cast<uintptr_t>(lhs) <=> (rhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask);
 		}
 		mutable std::atomic<uintptr_t> m_ptr;
 
-- 
2.43.0


From d64a91f2c1ab58b8b55fa8d86e360b825fcc2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 18/69] fix: ref assignment must not release the old target
 before taking the new one

---
 include/asyncpp/ref.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index e875ea9..99306b8 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -169,8 +169,10 @@ namespace asyncpp {
 		/// \brief Move assignment operator
 		//NOLINTNEXTLINE(hicpp-noexcept-move,performance-noexcept-move-constructor)
 		ref& operator=(ref&& other) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = std::exchange(other.m_ptr, nullptr);
+			// Removing the old reference might destroy other, so it needs to happen last
+			auto ptr = std::exchange(other.m_ptr, nullptr);
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 			return *this;
 		}
 		/**
@@ -180,9 +182,10 @@ namespace asyncpp {
 		 */
 		void reset(T* ptr) noexcept(noexcept(refcounted_add_ref(std::declval<T*>())) &&
 									noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
-			if (m_ptr) refcounted_add_ref(m_ptr);
+			// Removing the old reference might destroy the last other reference to ptr, so it needs to happen last
+			if (ptr) refcounted_add_ref(ptr);
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 		}
 		/**
 		 * \brief Reset the handle with a new value
@@ -190,8 +193,8 @@ namespace asyncpp {
 		 * \param adopt_ref the reference count is already incremented, keep it as is
 		 */
 		void reset(T* ptr, decltype(adopt_ref)) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 		}
 		/**
 		 * \brief Reset the handle to nullptr
-- 
2.43.0


From d96df64d7f20b0726859d4f0dca51deb3ffe1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 19/69] fix: thread_safe_refcount needs to acquire before
 destroying the object

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 99306b8..651811f 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -31,7 +31,7 @@ namespace asyncpp {
 		thread_safe_refcount& operator=(const thread_safe_refcount& other) = delete;
 
 		size_t fetch_increment() noexcept { return m_count.fetch_add(1, std::memory_order::acquire); }
-		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::release); }
+		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::acq_rel); }
 		[[nodiscard]] size_t count() const noexcept { return m_count.load(std::memory_order::relaxed); }
 	};
 	/**
-- 
2.43.0


From 4933bd41784db4bdf326dd2cfb2e7923f8a57e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 20/69] fix: atomic_ref::exchange() must not leak a reference
 if it throws

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 651811f..578433d 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -373,8 +373,8 @@ namespace asyncpp {
 		 * \throw std::logic_error if the pointer value collides with the lock_mask
 		 */
 		ref<T> exchange(ref<T> hdl) {
+			if ((reinterpret_cast<uintptr_t>(hdl.get()) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 			auto ptr = hdl.release();
-			if ((reinterpret_cast<uintptr_t>(ptr) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 
 			// Lock the current pointer value
 			auto val = lock();
-- 
2.43.0


From d52b64b600c7ad92f487d30ca2bfef9fbadcfd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 21/69] fix: signal::prepend() did not compile

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 68b3b77..d3317ab 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -345,7 +345,7 @@ namespace asyncpp {
 			m_head = new_node;
 		} else {
 			m_head = new_node;
-			m_tail = new_node;
+			m_tail = new_node.get();
 		}
 		return handle(static_ref_cast<detail::signal_node_base>(new_node));
 	}
-- 
2.43.0


From e7a9f54850c2a80100fc5c48799f9475bf5987da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 22/69] fix: signal did not accept lvalue callables

---
 include/asyncpp/signal.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index d3317ab..03868d6 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <mutex>
 #include <shared_mutex>
+#include <type_traits>
 #include <unordered_map>
 #include <utility>
 
@@ -110,7 +111,8 @@ namespace asyncpp {
 			~node_impl() noexcept = default;
 			void invoke(const TParams&... params) override { m_fn(params...); }
 			[[no_unique_address]] FN m_fn;
-			explicit node_impl(FN&& fncb) : m_fn(std::move(fncb)) {}
+			template<typename FN2>
+			explicit node_impl(FN2&& fncb) : m_fn(std::forward<FN2>(fncb)) {}
 		};
 
 	public:
@@ -321,7 +323,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::append(FN&& fncb) {
-		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
+		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->previous = m_tail;
@@ -337,7 +339,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::prepend(FN&& fncb) {
-		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
+		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->next = m_head;
-- 
2.43.0


From 5c73a490d00a8ca4fcae9048ac310c4eed115388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 23/69] fix: slots connected during an emission must not be
 invoked by it

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 03868d6..adf840f 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -387,7 +387,7 @@ namespace asyncpp {
 
 		const auto counter = m_current_counter.load(std::memory_order_acquire);
 		do {
-			if (node->counter != detail::signal_removed_counter && counter >= node->counter) {
+			if (node->counter != detail::signal_removed_counter && counter > node->counter) {
 				node->invoke(params...);
 				++ninvoked;
 			}
-- 
2.43.0


From b27455687ca92645e142d53f22e69f28e61cf745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 24/69] fix: signal nodes must not be unlinked twice

---
 include/asyncpp/signal.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index adf840f..1cd1d1a 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -171,11 +171,15 @@ namespace asyncpp {
 		}
 
 		void free_node(ref<node>& node) const noexcept {
+			node->counter = detail::signal_removed_counter;
+			// Already unlinked, e.g. by a nested emission
+			if (m_head != node && node->previous == nullptr) return;
 			if (node->next) { node->next->previous = node->previous; }
 			if (node->previous) { node->previous->next = node->next; }
-			node->counter = detail::signal_removed_counter;
 			if (m_head == node) m_head = node->next;
-			if (m_tail == node) m_tail = node->previous;
+			if (m_tail == node.get()) m_tail = node->previous;
+			// next is kept because there might be a running emission positioned at this node
+			node->previous = nullptr;
 		}
 	};
 
-- 
2.43.0


From 302d2d371bdbd714d4174202d34a63f09338df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 25/69] fix: signal::remove() must only remove and report
 connected slots of the signal

---
 include/asyncpp/signal.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 1cd1d1a..1476dce 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -358,23 +358,28 @@ namespace asyncpp {
 
 	template<typename... TParams, typename TTraits>
 	inline bool signal<void(TParams...), TTraits>::remove(const handle& hdl) {
-		auto node = static_ref_cast<signal::node>(hdl.m_node);
-		if (!node) return false;
+		ref<node> node{};
+		if (!hdl) return false;
 		std::lock_guard lck{m_mutex};
+		node = m_head;
+		while (node && node.get() != hdl.m_node.get()) {
+			node = node->next;
+		}
+		if (!node || node->counter.exchange(detail::signal_removed_counter) == detail::signal_removed_counter)
+			return false;
 		free_node(node);
 		return true;
 	}
 
 	template<typename... TParams, typename TTraits>
 	inline bool signal<void(TParams...), TTraits>::owns_handle(const handle& hdl) const {
-		auto node = static_ref_cast<signal::node>(hdl.m_node);
-		if (!node || node->counter == detail::signal_removed_counter) return false;
+		if (!hdl) return false;
 		std::lock_guard lck{m_mutex};
-		auto handle = m_head;
-		while (handle && handle != node) {
-			handle = handle->next;
+		auto handle = m_head.get();
+		while (handle && handle != hdl.m_node.get()) {
+			handle = handle->next.get();
 		}
-		return node == handle;
+		return handle != nullptr;
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From 975ce4f0da9f0df8d259461b42b6723930daf968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 26/69] fix: signal must not destroy slots while holding its
 mutex

---
 include/asyncpp/signal.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 1476dce..8ed9444 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -401,9 +401,12 @@ namespace asyncpp {
 				++ninvoked;
 			}
 
+			// Declared before the lock, because releasing the old node might destroy the slot
+			ref<signal::node> next{};
 			std::lock_guard lck(m_mutex);
 			if (node->counter == detail::signal_removed_counter) { free_node(node); }
-			node = node->next;
+			next = node->next;
+			std::swap(node, next);
 		} while (node);
 		return ninvoked;
 	}
-- 
2.43.0


From fb9b5c91c62da5ff7f722d783a40cc327a8d9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 27/69] fix: signal move assignment must return and release the
 old slots outside the mutex

---
 include/asyncpp/signal.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 8ed9444..141450f 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -284,9 +284,14 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 	inline signal<void(TParams...), TTraits>& signal<void(TParams...), TTraits>::operator=(signal&& other) {
-		std::scoped_lock lck{m_mutex, other.m_mutex};
-		auto node = m_head;
-		m_head.reset();
+		if (this == &other) return *this;
+		ref<signal::node> node{};
+		{
+			std::scoped_lock lck{m_mutex, other.m_mutex};
+			node = std::exchange(m_head, std::exchange(other.m_head, nullptr));
+			m_tail = std::exchange(other.m_tail, nullptr);
+			m_current_counter.store(other.m_current_counter.exchange(1));
+		}
 		while (node) {
 			auto next = node->next;
 			node->previous = nullptr;
@@ -294,9 +299,7 @@ namespace asyncpp {
 			node = next;
 		}
 		assert(!node);
-		m_head = std::exchange(other.m_head, nullptr);
-		m_tail = std::exchange(other.m_tail, nullptr);
-		m_current_counter.store(other.m_current_counter.exchange(1));
+		return *this;
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From 7e635465419d2c851ff49f96f7a66af4669aa2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 28/69] fix: signal_manager move operations were declared but
 not defined

---
 include/asyncpp/signal.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 141450f..387f7a3 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -201,9 +201,19 @@ namespace asyncpp {
 
 		signal_manager() = default;
 		//NOLINTNEXTLINE(performance-noexcept-move-constructor)
-		signal_manager(signal_manager&&);
+		signal_manager(signal_manager&& other) {
+			std::unique_lock lck{other.m_mutex};
+			m_mapping = std::exchange(other.m_mapping, {});
+		}
 		//NOLINTNEXTLINE(performance-noexcept-move-constructor)
-		signal_manager& operator=(signal_manager&&);
+		signal_manager& operator=(signal_manager&& other) {
+			if (this == &other) return *this;
+			// Destroyed after the locks are released
+			decltype(m_mapping) old{};
+			std::scoped_lock lck{m_mutex, other.m_mutex};
+			old = std::exchange(m_mapping, std::exchange(other.m_mapping, {}));
+			return *this;
+		}
 		signal_manager(const signal_manager&) = delete;
 		signal_manager& operator=(const signal_manager&) = delete;
 
-- 
2.43.0


From 505ed6b45f15ec5e4c98bd94bc0c6feb1696e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 29/69] fix: signal_manager must keep signals alive while using
 them and not hold its mutex while invoking slots

---
 include/asyncpp/signal.h | 48 ++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 387f7a3..2be8a35 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -4,6 +4,7 @@
 #include <atomic>
 #include <cassert>
 #include <cstddef>
+#include <memory>
 #include <mutex>
 #include <shared_mutex>
 #include <type_traits>
@@ -219,45 +220,49 @@ namespace asyncpp {
 
 		template<typename FN>
 		handle append(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.append(std::forward<decltype(fncb)>(fncb));
+			auto sig = find_or_create_slot(event);
+			return sig->append(std::forward<decltype(fncb)>(fncb));
 		}
 		template<typename FN>
 		handle prepend(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.prepend(std::forward<decltype(fncb)>(fncb));
+			auto sig = find_or_create_slot(event);
+			return sig->prepend(std::forward<decltype(fncb)>(fncb));
 		}
 
 		bool remove(event_type event, const handle& hdl) {
 			std::shared_lock lck{m_mutex};
 			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.remove(hdl);
+			return iter != m_mapping.end() && iter->second->remove(hdl);
 		}
 
 		bool owns_handle(event_type event, const handle& hdl) const {
 			std::shared_lock lck{m_mutex};
 			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.owns_handle(hdl);
+			return iter != m_mapping.end() && iter->second->owns_handle(hdl);
 		}
 
 		size_t invoke(event_type event, const TParams&... params) const {
 			std::shared_lock lck{m_mutex};
 			auto iter = m_mapping.find(event);
 			if (iter == m_mapping.end()) return 0;
-			return iter->second(params...);
+			// Slots might use the manager, so the mutex can not be held while invoking them
+			const auto sig = iter->second;
+			lck.unlock();
+			return (*sig)(params...);
 		}
 
 		size_t operator()(event_type event, const TParams&... params) const { return invoke(event, params...); }
 
 		size_t shrink_to_fit() {
+			// Destroyed after the lock is released
+			decltype(m_mapping) removed{};
 			std::unique_lock lck{m_mutex};
 			size_t res = 0;
 			for (auto it = m_mapping.begin(); it != m_mapping.end();) {
-				if (it->second.empty()) {
+				// A signal that is in use might be about to get a new slot
+				if (it->second.use_count() == 1 && it->second->empty()) {
 					res++;
-					it = m_mapping.erase(it);
+					removed.insert(m_mapping.extract(it++));
 				} else
 					it++;
 			}
@@ -266,19 +271,18 @@ namespace asyncpp {
 
 	private:
 		mutable std::shared_mutex m_mutex{};
-		std::unordered_map<event_type, signal_type> m_mapping;
+		std::unordered_map<event_type, std::shared_ptr<signal_type>> m_mapping;
 
-		auto find_or_create_slot(event_type evt) {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(evt);
-			if (iter == m_mapping.end()) {
-				lck.unlock();
-				std::unique_lock unique{m_mutex};
-				iter = m_mapping.find(evt);
-				if (iter != m_mapping.end()) return iter;
-				iter = m_mapping.emplace(evt, signal_type{}).first;
+		std::shared_ptr<signal_type> find_or_create_slot(const event_type& evt) {
+			{
+				std::shared_lock lck{m_mutex};
+				auto iter = m_mapping.find(evt);
+				if (iter != m_mapping.end()) return iter->second;
 			}
-			return iter;
+			std::unique_lock lck{m_mutex};
+			auto& sig = m_mapping[evt];
+			if (!sig) sig = std::make_shared<signal_type>();
+			return sig;
 		}
 	};
 
-- 
2.43.0


From fb2c8a6e232715f871268620e9c6c65d05418fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 30/69] fix: assigning a scoped_signal_handle disconnected the
 new slot instead of the old one

---
 include/asyncpp/signal.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 2be8a35..95441b3 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -73,6 +73,17 @@ namespace asyncpp {
 		scoped_signal_handle(ref<detail::signal_node_base> hdl = {}) : m_handle(std::move(hdl)) {}
 		//NOLINTNEXTLINE(google-explicit-constructor)
 		scoped_signal_handle(signal_handle hdl) : m_handle(std::move(hdl)) {}
+		scoped_signal_handle(scoped_signal_handle&& other) noexcept
+			: m_handle(std::exchange(other.m_handle, signal_handle{})) {}
+		scoped_signal_handle(const scoped_signal_handle&) = delete;
+		scoped_signal_handle& operator=(scoped_signal_handle&& other) noexcept {
+			if (this != &other) {
+				m_handle.disconnect();
+				m_handle = std::exchange(other.m_handle, signal_handle{});
+			}
+			return *this;
+		}
+		scoped_signal_handle& operator=(const scoped_signal_handle&) = delete;
 		~scoped_signal_handle() noexcept { m_handle.disconnect(); }
 		explicit operator bool() const noexcept { return valid(); }
 		[[nodiscard]] bool operator!() const noexcept { return !valid(); }
-- 
2.43.0


From 1a92e0e7fd3f1a306d57f3e8c93f61ce3b4b4483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 31/69] fix: thread_pool::push() from a worker of another pool
 used the wrong pool

---
 include/asyncpp/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index ea81125..38273d9 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -40,7 +40,7 @@ namespace asyncpp {
 		 */
 		void push(std::function<void()> cbfn) override {
 			if (!cbfn) return;
-			if (g_current_thread != nullptr) {
+			if (g_current_thread != nullptr && g_current_thread->pool == this) {
 				std::unique_lock lck{g_current_thread->mutex};
 				g_current_thread->queue.emplace(std::move(cbfn));
 			} else {
-- 
2.43.0


From c50b164376b566cbbfb2c6bbaf423001497fff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 32/69] fix: thread_pool lost tasks pushed while shrinking

---
 include/asyncpp/thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 38273d9..88c8128 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -62,8 +62,11 @@ namespace asyncpp {
 			std::unique_lock lck{m_resize_mtx};
 			auto old = m_target_size.load();
 			if (old > target_size) {
-				// Prevent new tasks from being scheduled on those threads
+				// Prevent new tasks from being scheduled on those threads. The lock waits for running
+				// calls to push() and try_steal_task(), which might still use one of them.
+				std::unique_lock threads_lck{m_threads_mtx};
 				m_valid_size = target_size;
+				threads_lck.unlock();
 				m_target_size = target_size;
 				// Notify all and join threads, if the threads index is greater or equal to m_target_size,
 				// it will invoke its remaining tasks and exit.
-- 
2.43.0


From fa2146568627725acb789a351e9cc1063e8b3a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 33/69] fix: thread_pool must not destroy tasks while holding
 the mutex of the thread

---
 include/asyncpp/thread_pool.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 88c8128..9a843e6 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -147,6 +147,7 @@ namespace asyncpp {
 							queue.pop();
 							lck.unlock();
 							cbfn();
+							cbfn = nullptr;
 							lck.lock();
 						}
 					}
@@ -163,11 +164,12 @@ namespace asyncpp {
 				std::unique_lock lck{mutex};
 				g_current_thread = nullptr;
 				while (!queue.empty()) {
-					auto& cbfn = queue.front();
+					auto cbfn = std::move(queue.front());
+					queue.pop();
 					lck.unlock();
 					cbfn();
+					cbfn = nullptr;
 					lck.lock();
-					queue.pop();
 				}
 				dispatcher::current(nullptr);
 			}
-- 
2.43.0


From 3c1d4bb1b32ea1f60e73f2645f5663cb20e65773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 34/69] fix: tasks of a thread that is being removed must be
 able to push to the pool

---
 include/asyncpp/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 9a843e6..23ce019 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -162,7 +162,6 @@ namespace asyncpp {
 					}
 				}
 				std::unique_lock lck{mutex};
-				g_current_thread = nullptr;
 				while (!queue.empty()) {
 					auto cbfn = std::move(queue.front());
 					queue.pop();
@@ -171,6 +170,7 @@ namespace asyncpp {
 					cbfn = nullptr;
 					lck.lock();
 				}
+				g_current_thread = nullptr;
 				dispatcher::current(nullptr);
 			}
 		};
-- 
2.43.0


From 759d82e0189daa8b3bb239408402a015cd8ac751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 35/69] fix: timer thread did not set the current dispatcher

---
 include/asyncpp/timer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 3724245..da6dd9d 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -292,6 +292,7 @@ namespace asyncpp {
 #ifdef __linux__
 			pthread_setname_np(pthread_self(), "asyncpp_timer");
 #endif
+			dispatcher::current(this);
 			while (true) {
 				std::unique_lock lck(m_mtx);
 				while (!m_pushed.empty()) {
-- 
2.43.0


From e08114be4d576d24991d1d99027524ffd7599d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 36/69] fix: timer cancellation raced with scheduling, expiry
 and destruction

---
 include/asyncpp/timer.h | 112 ++++++++++++++++++++++------------------
 1 file changed, 61 insertions(+), 51 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index da6dd9d..11b763f 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -33,44 +33,34 @@ namespace asyncpp {
 			};
 		};
 		struct cancellable_scheduled_entry : public scheduled_entry {
+			using set_type = std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>;
 			/// \brief Callback type used with stop_tokens
 			struct cancel_callback {
 				/// \brief Pointer to the timer containing this node
 				timer* parent;
-				/// \brief Iterator to this node in the entry set
-				std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::const_iterator it;
+				/// \brief Pointer to the entry of this callback
+				const cancellable_scheduled_entry* entry;
 				/// \brief Invocation operator called on cancellation
 				void operator()() const {
-					// We have to distinguish between cancellation while in the process of construction and
-					// cancellation afterwards. If the stop_token is signalled at the time of construction it directly
-					// invokes the callback, however if we would lock at that point we would cause a deadlock with the
-					// outside lock in schedule(). We also can't directly delete the node in this case because
-					// std::optional<>::emplace tries to set a flag after construction which would cause use after free.
-					// Thus we set a flag in schedule() and postpone both the invoke and deletion until after emplace is done.
-					// If we are not in construction we need to lock and can directly destroy the node once we are done.
-					if (it->in_construction) {
-						auto entry =
-							new std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::node_type(
-								parent->m_scheduled_cancellable_set.extract(it));
-						if (entry->value().invokable) {
-							parent->m_pushed.emplace([entry]() {
-								entry->value().invokable(false);
-								delete entry;
-							});
-						}
-					} else {
-						std::unique_lock lck{parent->m_mtx};
-						auto entry = parent->m_scheduled_cancellable_set.extract(it);
-						lck.unlock();
-						if (entry.value().invokable) {
-							parent->m_pushed.emplace([cbfn = std::move(entry.value().invokable)]() { cbfn(false); });
-							parent->m_cv.notify_all();
-						}
+					// The node is only moved to the set of cancelled entries and gets invoked and destroyed by the
+					// timer thread. If it is not (or no longer) scheduled we are either called while schedule() is
+					// registering the callback, which then checks the flag, or the timer thread already took the entry.
+					std::unique_lock lck{parent->m_mtx};
+					entry->cancelled = true;
+					if (entry->scheduled) {
+						entry->scheduled = false;
+						parent->m_cancelled_set.insert(parent->m_scheduled_cancellable_set.extract(entry->position));
+						parent->m_cv.notify_all();
 					}
 				}
 			};
 			mutable std::optional<asyncpp::stop_callback<cancel_callback>> cancel_token;
-			mutable bool in_construction{true};
+			/// \brief Set if the entry is part of m_scheduled_cancellable_set
+			mutable bool scheduled{false};
+			/// \brief Set if cancellation was requested
+			mutable bool cancelled{false};
+			/// \brief Position in m_scheduled_cancellable_set if scheduled is set
+			mutable typename set_type::const_iterator position{};
 
 			cancellable_scheduled_entry(std::chrono::steady_clock::time_point time,
 										std::function<void(bool)> cbfn) noexcept
@@ -92,6 +82,7 @@ namespace asyncpp {
 			assert(m_pushed.empty());
 			assert(m_scheduled_set.empty());
 			assert(m_scheduled_cancellable_set.empty());
+			assert(m_cancelled_set.empty());
 		}
 		timer(const timer&) = delete;
 		timer& operator=(const timer&) = delete;
@@ -145,10 +136,18 @@ namespace asyncpp {
 		void schedule(std::function<void(bool)> cbfn, std::chrono::steady_clock::time_point timeout,
 					  asyncpp::stop_token stoken) {
 			if (m_exit) throw std::logic_error("shutting down");
+			// The callback might be invoked right away and needs the mutex, so register it before inserting the entry
+			cancellable_scheduled_entry::set_type tmp{};
+			auto iter = tmp.emplace(timeout, std::move(cbfn));
+			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, &*iter});
 			std::unique_lock lck(m_mtx);
-			auto iter = m_scheduled_cancellable_set.emplace(timeout, std::move(cbfn));
-			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, iter});
-			iter->in_construction = false;
+			if (iter->cancelled) {
+				m_cancelled_set.insert(tmp.extract(iter));
+			} else {
+				iter = m_scheduled_cancellable_set.insert(tmp.extract(iter));
+				iter->position = iter;
+				iter->scheduled = true;
+			}
 			m_cv.notify_all();
 		}
 		/**
@@ -284,7 +283,8 @@ namespace asyncpp {
 		std::condition_variable m_cv{};
 		std::queue<std::function<void()>> m_pushed{};
 		std::multiset<scheduled_entry, scheduled_entry::time_less> m_scheduled_set{};
-		std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less> m_scheduled_cancellable_set{};
+		cancellable_scheduled_entry::set_type m_scheduled_cancellable_set{};
+		cancellable_scheduled_entry::set_type m_cancelled_set{};
 		std::atomic<bool> m_exit{};
 		std::thread m_thread{};
 
@@ -306,6 +306,9 @@ namespace asyncpp {
 						lck.lock();
 					}
 				}
+				while (!m_cancelled_set.empty()) {
+					invoke_cancellable(m_cancelled_set, lck, false);
+				}
 				auto now = std::chrono::steady_clock::now();
 				while (!m_scheduled_set.empty()) {
 					auto elem = m_scheduled_set.begin();
@@ -322,29 +325,21 @@ namespace asyncpp {
 				while (!m_scheduled_cancellable_set.empty()) {
 					auto elem = m_scheduled_cancellable_set.begin();
 					if (elem->timepoint > now) break;
-					auto handle = m_scheduled_cancellable_set.extract(elem);
-					if (handle.value().invokable) {
-						handle.value().cancel_token.reset();
-						lck.unlock();
-						try {
-							handle.value().invokable(true);
-						} catch (...) { std::terminate(); }
-						lck.lock();
-					}
+					invoke_cancellable(m_scheduled_cancellable_set, lck, true);
 				}
 				now = std::chrono::steady_clock::now();
 				std::chrono::nanoseconds timeout{500 * 1000 * 1000};
 				if (!m_scheduled_set.empty()) timeout = (std::min)(m_scheduled_set.begin()->timepoint - now, timeout);
 				if (!m_scheduled_cancellable_set.empty())
 					timeout = (std::min)(m_scheduled_cancellable_set.begin()->timepoint - now, timeout);
-				if (m_pushed.empty() && timeout.count() > 0) {
+				if (m_pushed.empty() && m_cancelled_set.empty() && timeout.count() > 0) {
 					if (m_exit) break;
 					m_cv.wait_for(lck, timeout);
 				}
 			}
 			std::unique_lock lck(m_mtx);
 			auto set = std::move(m_scheduled_set);
-			auto cset = std::move(m_scheduled_cancellable_set);
+			m_scheduled_set.clear();
 			lck.unlock();
 			for (const auto& entry : set) {
 				if (entry.invokable) {
@@ -353,16 +348,31 @@ namespace asyncpp {
 					} catch (...) { std::terminate(); }
 				}
 			}
-			for (const auto& entry : cset) {
-				if (entry.invokable) {
-					try {
-						entry.invokable(false);
-					} catch (...) { std::terminate(); }
-				}
+			lck.lock();
+			// Entries might still get cancelled until we took them
+			while (!m_scheduled_cancellable_set.empty()) {
+				invoke_cancellable(m_scheduled_cancellable_set, lck, false);
+			}
+			while (!m_cancelled_set.empty()) {
+				invoke_cancellable(m_cancelled_set, lck, false);
 			}
+		}
+
+		// Take the first entry of the set and invoke it without holding the lock.
+		void invoke_cancellable(cancellable_scheduled_entry::set_type& set, std::unique_lock<std::mutex>& lck,
+								bool result) noexcept {
+			auto handle = set.extract(set.begin());
+			handle.value().scheduled = false;
+			lck.unlock();
+			// Waits for a concurrent cancellation, which needs the mutex
+			handle.value().cancel_token.reset();
+			if (handle.value().invokable) {
+				try {
+					handle.value().invokable(result);
+				} catch (...) { std::terminate(); }
+			}
+			handle = {};
 			lck.lock();
-			m_scheduled_set.clear();
-			m_scheduled_cancellable_set.clear();
 		}
 	};
 
-- 
2.43.0


From a9777e4d5018bf85c778e783ac4d6cdebaf0e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 37/69] fix: timer must not destroy callbacks while holding its
 mutex

---
 include/asyncpp/timer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 11b763f..9a09112 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -303,6 +303,7 @@ namespace asyncpp {
 						try {
 							entry();
 						} catch (...) { std::terminate(); }
+						entry = nullptr;
 						lck.lock();
 					}
 				}
@@ -319,6 +320,7 @@ namespace asyncpp {
 						try {
 							handle.value().invokable(true);
 						} catch (...) { std::terminate(); }
+						handle = {};
 						lck.lock();
 					}
 				}
-- 
2.43.0


From 1b296c55bee60de5c357227480791dda8355c225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 38/69] fix: timer must fire cancellable and other entries in
 the order of their deadlines

---
 include/asyncpp/timer.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 9a09112..927c8c6 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -311,9 +311,16 @@ namespace asyncpp {
 					invoke_cancellable(m_cancelled_set, lck, false);
 				}
 				auto now = std::chrono::steady_clock::now();
-				while (!m_scheduled_set.empty()) {
-					auto elem = m_scheduled_set.begin();
-					if (elem->timepoint > now) break;
+				while (true) {
+					// Take the entry that is due first from both sets
+					const auto elem = m_scheduled_set.begin();
+					const auto celem = m_scheduled_cancellable_set.begin();
+					if (celem != m_scheduled_cancellable_set.end() && celem->timepoint <= now &&
+						(elem == m_scheduled_set.end() || celem->timepoint < elem->timepoint)) {
+						invoke_cancellable(m_scheduled_cancellable_set, lck, true);
+						continue;
+					}
+					if (elem == m_scheduled_set.end() || elem->timepoint > now) break;
 					auto handle = m_scheduled_set.extract(elem);
 					if (handle.value().invokable) {
 						lck.unlock();
@@ -324,11 +331,6 @@ namespace asyncpp {
 						lck.lock();
 					}
 				}
-				while (!m_scheduled_cancellable_set.empty()) {
-					auto elem = m_scheduled_cancellable_set.begin();
-					if (elem->timepoint > now) break;
-					invoke_cancellable(m_scheduled_cancellable_set, lck, true);
-				}
 				now = std::chrono::steady_clock::now();
 				std::chrono::nanoseconds timeout{500 * 1000 * 1000};
 				if (!m_scheduled_set.empty()) timeout = (std::min)(m_scheduled_set.begin()->timepoint - now, timeout);
-- 
2.43.0


From 15c3630c9db555aa47ef2178e8cf248309574024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 39/69] fix: tasks pushing more tasks must not prevent timer
 entries from firing

---
 include/asyncpp/timer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 927c8c6..5b0310f 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -295,7 +295,8 @@ namespace asyncpp {
 			dispatcher::current(this);
 			while (true) {
 				std::unique_lock lck(m_mtx);
-				while (!m_pushed.empty()) {
+				// Tasks pushed by those tasks have to wait for the next iteration, to not starve the scheduled entries
+				for (auto count = m_pushed.size(); count != 0; --count) {
 					auto entry = std::move(m_pushed.front());
 					m_pushed.pop();
 					if (entry) {
-- 
2.43.0


From 0a5b925281088b0afa6a0352f7c7f2289861fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 40/69] fix: simple_dispatcher::run() missed a concurrent
 stop()

---
 include/asyncpp/simple_dispatcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 9f51937..0382a92 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -43,8 +43,9 @@ namespace asyncpp {
          */
 		void run() {
 			dispatcher* const old_dispatcher = dispatcher::current(this);
-			while (!m_done) {
+			while (true) {
 				std::unique_lock lck{m_mtx};
+				if (m_done) break;
 				if (m_queue.empty()) {
 					m_cv.wait(lck);
 					continue;
-- 
2.43.0


From cfef4729e1738c7c70febb1715774bdd3564c426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 41/69] fix: move assigning a stop_source must give up the old
 state

---
 include/asyncpp/stop_token.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/stop_token.h b/include/asyncpp/stop_token.h
index a38a46c..55fa863 100644
--- a/include/asyncpp/stop_token.h
+++ b/include/asyncpp/stop_token.h
@@ -305,7 +305,10 @@ namespace asyncpp {
 			return *this;
 		}
 
-		stop_source& operator=(stop_source&&) noexcept = default;
+		stop_source& operator=(stop_source&& other) noexcept {
+			stop_source(std::move(other)).swap(*this);
+			return *this;
+		}
 
 		~stop_source() {
 			if (m_state) m_state->sub_ssrc();
-- 
2.43.0


From caff80f85222f45b74a9c7da4efac9d989a1ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 42/69] fix: generator of references did not compile

The promise held a T* which is ill-formed for the reference types the rest
of the class supports.
---
 include/asyncpp/generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/generator.h b/include/asyncpp/generator.h
index 7f94e89..4b0818f 100644
--- a/include/asyncpp/generator.h
+++ b/include/asyncpp/generator.h
@@ -51,7 +51,7 @@ namespace asyncpp {
 			suspend_never await_transform(U&& value) = delete;
 
 		private:
-			T* m_value{nullptr};
+			pointer_type m_value{nullptr};
 			std::exception_ptr m_exception{nullptr};
 		};
 
-- 
2.43.0


From 96f53ccaf9764753b7eb3c783826e59b82c86d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:03 +0000
Subject: [PATCH 43/69] fix: async_generator of references did not compile

---
 include/asyncpp/async_generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/async_generator.h b/include/asyncpp/async_generator.h
index 698ded6..e0acd9a 100644
--- a/include/asyncpp/async_generator.h
+++ b/include/asyncpp/async_generator.h
@@ -45,7 +45,7 @@ namespace asyncpp {
 			void rethrow_if_unhandled_exception() {
 				if (m_exception) { std::rethrow_exception(std::move(m_exception)); }
 			}
-			[[nodiscard]] T* value() const noexcept { return m_value; }
+			[[nodiscard]] std::remove_reference_t<T>* value() const noexcept { return m_value; }
 
 		protected:
 			[[nodiscard]] async_generator_yield_operation internal_yield_value() noexcept {
@@ -62,7 +62,7 @@ namespace asyncpp {
 			coroutine_handle<> m_consumer;
 
 		protected:
-			T* m_value;
+			std::remove_reference_t<T>* m_value;
 		};
 
 		template<typename T, ByteAllocator Allocator>
@@ -85,7 +85,7 @@ namespace asyncpp {
 		};
 
 		template<typename T, ByteAllocator Allocator>
-		class async_generator_promise<T&&, Allocator> final : public async_generator_promise_base<T>,
+		class async_generator_promise<T&&, Allocator> final : public async_generator_promise_base<T&&>,
 															  public promise_allocator_base<Allocator> {
 		public:
 			async_generator_promise() noexcept = default;
@@ -135,7 +135,7 @@ namespace asyncpp {
 				};
 				return increment_op{*this};
 			}
-			[[nodiscard]] reference operator*() const noexcept { return *static_cast<T*>(m_promise->value()); }
+			[[nodiscard]] reference operator*() const noexcept { return *m_promise->value(); }
 			[[nodiscard]] bool operator==(const async_generator_iterator& other) const noexcept {
 				return m_promise == other.m_promise;
 			}
-- 
2.43.0


From 7ab5a9c3fffabf4bc2a5132240a9c5c5d24aa69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 44/69] fix: exception_policy::ignore terminated the program

An empty handler is how tasks represent the absence of a policy.
---
 include/asyncpp/policy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/policy.h b/include/asyncpp/policy.h
index 74d4519..7d7da04 100644
--- a/include/asyncpp/policy.h
+++ b/include/asyncpp/policy.h
@@ -25,5 +25,5 @@ namespace asyncpp {
 		static exception_policy handle(std::function<void()> cbfn) { return exception_policy{std::move(cbfn)}; }
 	};
 	inline const exception_policy exception_policy::terminate = {[]() { std::terminate(); }};
-	inline const exception_policy exception_policy::ignore = {};
+	inline const exception_policy exception_policy::ignore = {[]() {}};
 } // namespace asyncpp
-- 
2.43.0


From de2544bce9f88ac880bf2b0d8017c576bf795cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:40 +0000
Subject: [PATCH 45/69] fix: starting a fire_and_forget_task through a copy
 resumed a suspended body

start() only checked done(), so a second start (through a copy, or from
another thread) resumed a body that was waiting for something else.
---
 include/asyncpp/fire_and_forget.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index fd93659..666f834 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -23,6 +23,7 @@ namespace asyncpp {
 			// Promise type of this task
 			class promise_type : public promise_allocator_base<Allocator> {
 				std::atomic<size_t> m_ref_count{1};
+				std::atomic<bool> m_started{false};
 				std::function<void()> m_exception_handler{};
 
 			public:
@@ -73,6 +74,7 @@ namespace asyncpp {
 					if (m_ref_count.fetch_sub(1) == 1) coroutine_handle<promise_type>::from_promise(*this).destroy();
 				}
 				void ref() noexcept { m_ref_count.fetch_add(1); }
+				bool try_start() noexcept { return !m_started.exchange(true); }
 			};
 
 			/// \brief Construct from a handle
@@ -110,12 +112,12 @@ namespace asyncpp {
 			void start() noexcept
 				requires(!Eager)
 			{
-				if (m_coro && !m_coro.done()) {
-					m_coro.resume();
-					// Make sure it is only started once
-					m_coro.promise().unref();
-					m_coro = nullptr;
-				}
+				// The body might destroy or assign to this handle, so keep our reference locally.
+				auto hndl = std::exchange(m_coro, nullptr);
+				if (!hndl) return;
+				// Make sure it is only started once
+				if (hndl.promise().try_start()) hndl.resume();
+				hndl.promise().unref();
 			}
 
 		private:
-- 
2.43.0


From a3047f532fe2c923829fda599008158856c3bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:06 +0000
Subject: [PATCH 46/69] fix: fire_and_forget_task could be destroyed while it
 was being suspended

The body's reference was released in await_ready, so another thread could
destroy the frame before the coroutine reached its final suspension.
---
 include/asyncpp/fire_and_forget.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index 666f834..e35be10 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -45,10 +45,9 @@ namespace asyncpp {
 				auto final_suspend() noexcept {
 					struct awaiter {
 						promise_type* self;
-						[[nodiscard]] constexpr bool await_ready() const noexcept {
-							return self->m_ref_count.fetch_sub(1) == 1;
-						}
-						void await_suspend(coroutine_handle<>) const noexcept {}
+						[[nodiscard]] constexpr bool await_ready() const noexcept { return false; }
+						// The coroutine is suspended at this point, so either we or any remaining handle can destroy it.
+						void await_suspend(coroutine_handle<>) const noexcept { self->unref(); }
 						constexpr void await_resume() const noexcept {}
 					};
 					return awaiter{this};
-- 
2.43.0


From ddb759c9460d6b059f2e85ebf309d86bb4713408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:18 +0000
Subject: [PATCH 47/69] fix: fire_and_forget_task copy assignment from a handle
 owned by the old task

The old coroutine was released before the new one was read and referenced.
---
 include/asyncpp/fire_and_forget.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index e35be10..946b810 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -96,9 +96,11 @@ namespace asyncpp {
 
 			fire_and_forget_task_impl& operator=(const fire_and_forget_task_impl& other) {
 				if (&other != this) {
-					if (m_coro) m_coro.promise().unref();
+					// Releasing the old coroutine might destroy other (or even this), so it happens last.
+					auto old = m_coro;
 					m_coro = other.m_coro;
 					if (m_coro) m_coro.promise().ref();
+					if (old) old.promise().unref();
 				}
 				return *this;
 			}
-- 
2.43.0


From bb5a1d6e68eaa3e472cbd9ca5e923371db76314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:23 +0000
Subject: [PATCH 48/69] fix: async_launch_scope::invoke kept a reference to
 lvalue callables

The documentation promises a copy, but the deduced forwarding reference was
used as the parameter type.
---
 include/asyncpp/launch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 5cc02b2..38b950b 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -91,7 +91,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args, ByteAllocator Allocator = default_allocator_type>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
-			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
 				scope->m_count.fetch_add(1);
 				scope_guard guard{[scope]() noexcept {
@@ -117,7 +117,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
-			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, Args&&... args) -> detail::launch_task<> {
 				scope->m_count.fetch_add(1);
 				scope_guard guard{[scope]() noexcept {
 					// If this is the last task
-- 
2.43.0


From 24e2eb867a4f74eab3732c92913df2d29808cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 49/69] fix: async_launch_scope::join raced with the last task

The task count and the continuation were separate atomics: the last task
could resume the joining coroutine while it was still suspending (and then
be resumed again), touched the scope after a joiner saw the count at zero
and destroyed it, and a join that did not need to suspend left a stale
continuation behind.
---
 include/asyncpp/launch.h | 68 +++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 38b950b..d10deac 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -49,14 +49,28 @@ namespace asyncpp {
 	 * \brief Holder class for spawning child tasks. Allows waiting for all of them to finish.
 	 */
 	class async_launch_scope {
-		std::atomic<size_t> m_count{0U};
+		// The number of active tasks and whether someone waits for them has to change together: The scope might be gone
+		// as soon as the number of tasks is zero and no one is waiting, or once the waiter was resumed.
+		static constexpr size_t joining_flag = 1U;
+		static constexpr size_t task_unit = 2U;
+		std::atomic<size_t> m_state{0U};
 		std::atomic<void*> m_continuation{nullptr};
 
+		void task_done() noexcept {
+			auto state = m_state.load();
+			// If this is the last task and we are being awaited we clear the flag as well
+			while (!m_state.compare_exchange_weak(
+				state, state == (task_unit | joining_flag) ? size_t{0U} : state - task_unit)) {}
+			// Resume the awaiter
+			if (state == (task_unit | joining_flag))
+				coroutine_handle<>::from_address(m_continuation.exchange(nullptr)).resume();
+		}
+
 	public:
 		constexpr async_launch_scope() noexcept = default;
 		async_launch_scope(const async_launch_scope&) = delete;
 		async_launch_scope& operator=(const async_launch_scope&) = delete;
-		~async_launch_scope() { assert(m_count.load() == 0); }
+		~async_launch_scope() { assert(m_state.load() == 0); }
 
 		/**
 		 * \brief Spawn a new task for the given awaitable.
@@ -67,16 +81,8 @@ namespace asyncpp {
 		void launch(Awaitable&& awaitable, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, std::decay_t<Awaitable> awaitable,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->m_state.fetch_add(task_unit);
+				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await awaitable;
 			}(this, std::forward<decltype(awaitable)>(awaitable), allocator);
 		}
@@ -93,16 +99,8 @@ namespace asyncpp {
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, std::decay_t<Callable> callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->m_state.fetch_add(task_unit);
+				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await std::apply(callable, std::move(args));
 			}(this, std::forward<Callable>(callable), std::move(args), allocator);
 		}
@@ -118,16 +116,8 @@ namespace asyncpp {
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
 			[](async_launch_scope* scope, std::decay_t<Callable> callable, Args&&... args) -> detail::launch_task<> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->m_state.fetch_add(task_unit);
+				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
 			}(this, std::forward<Callable>(callable), std::forward<Args>(args)...);
 		}
@@ -141,15 +131,21 @@ namespace asyncpp {
 				async_launch_scope* m_scope;
 				[[nodiscard]] bool await_ready() const noexcept {
 					// Dont wait if theres nothing to await
-					return m_scope->m_count.load() == 0;
+					return m_scope->m_state.load() < task_unit;
 				}
 				[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) const {
 					// Set our coroutine if there is noone waiting
 					void* expected = nullptr;
 					if (!m_scope->m_continuation.compare_exchange_strong(expected, hdl.address()))
 						throw std::logic_error("duplicate join");
-					// We might have nothing left to wait on if the last coroutine finished in the meantime
-					return m_scope->m_count.load() != 0;
+					auto state = m_scope->m_state.load();
+					while (state != 0) {
+						// Once this succeeds the last task resumes us, so we must not touch anything afterwards
+						if (m_scope->m_state.compare_exchange_weak(state, state | joining_flag)) return true;
+					}
+					// We have nothing left to wait on because the last coroutine finished in the meantime
+					m_scope->m_continuation.store(nullptr);
+					return false;
 				}
 				constexpr void await_resume() const noexcept {}
 			};
@@ -178,7 +174,7 @@ namespace asyncpp {
 		 * \brief Returns the number of active task on this scope
 		 * \warning Only use this value for informational purposes, it might change at any time.
 		 */
-		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed); }
+		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_state.load(std::memory_order::relaxed) / task_unit; }
 
 		/**
 		 * \brief Returns true if there is no active task currently running on this scope
-- 
2.43.0


From 5c96739e70fb9856f37edf518de85ee035f38abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 50/69] fix: fib_await did not compile for lvalue awaiters

T is a reference in this case, so T* is ill formed.
---
 include/asyncpp/fiber.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 5e84505..9437465 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -850,18 +850,19 @@ namespace asyncpp::detail {
 				   (static_cast<uint8_t*>(hndl->fiber_stack.mmap_base) + hndl->fiber_stack.mmap_size));
 #endif
 			using AwaitResult = decltype(awaiter.await_suspend(std::declval<coroutine_handle<>>()));
+			using Awaiter = std::remove_reference_t<T>;
 			hndl->suspend_handler = [](void* ptr, coroutine_handle<> hndl) {
 				if constexpr (std::is_same_v<AwaitResult, void>) {
-					static_cast<T*>(ptr)->await_suspend(hndl);
+					static_cast<Awaiter*>(ptr)->await_suspend(hndl);
 					return true;
 				} else if constexpr (std::is_same_v<AwaitResult, bool>) {
-					return static_cast<T*>(ptr)->await_suspend(hndl);
+					return static_cast<Awaiter*>(ptr)->await_suspend(hndl);
 				} else { // Treat everything else as a coroutine_handle to resume
-					static_cast<T*>(ptr)->await_suspend(hndl).resume();
+					static_cast<Awaiter*>(ptr)->await_suspend(hndl).resume();
 					return true;
 				}
 			};
-			hndl->suspend_handler_ptr = &awaiter;
+			hndl->suspend_handler_ptr = const_cast<std::remove_const_t<Awaiter>*>(std::addressof(awaiter));
 #if ASYNCPP_HAS_ASAN
 			void* asan_handle;
 			__sanitizer_start_switch_fiber(&asan_handle, hndl->asan_parent_stack, hndl->asan_parent_stack_size);
-- 
2.43.0


From d49c28cd75af4383705a690ceab0d7624ed91a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 51/69] fix: fiber with a result did not accept callables
 without const call operator

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 9437465..d4a898a 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -1003,7 +1003,7 @@ namespace asyncpp {
 		explicit fiber(FN&& function, size_t stack_size = 262144)
 			requires(!std::is_same_v<FN, fiber>)
 			: m_result(std::make_unique<std::optional<TReturn>>()),
-			  m_base([function = std::forward<FN>(function), res = m_result.get()]() { res->emplace(function()); },
+			  m_base([function = std::forward<FN>(function), res = m_result.get()]() mutable { res->emplace(function()); },
 					 stack_size) {}
 		/// \brief Construct an empty fiber handle
 		constexpr fiber() noexcept = default;
-- 
2.43.0


From 2c019499036fe018ce117937ed42a3c1599a098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 52/69] fix: awaiting a temporary fiber copied the result

operator co_await() && selected the lvalue overload of await().
---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index d4a898a..d6d66cb 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -1083,7 +1083,7 @@ namespace asyncpp {
 		 * \brief Get an awaitable for this fiber.
 		 * \return auto An awaiter that is resumed once the fiber finishes
 		 */
-		auto operator co_await() && { return await(); }
+		auto operator co_await() && { return std::move(*this).await(); }
 	};
 
 	template<typename FN>
-- 
2.43.0


From f48e7f727db6b20883fec462e2804243b106bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 53/69] fix: fibers started with all floating point exceptions
 unmasked

The initial control words were zero, so any inexact operation raised SIGFPE
and x87 operations used reduced precision.
---
 include/asyncpp/fiber.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index d6d66cb..3086a4a 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -155,6 +155,9 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// Start with the floating point environment of the creator
+		asm volatile("stmxcsr %0" : "=m"(frame->mmx_cw)); // NOLINT(hicpp-no-assembler)
+		asm volatile("fnstcw %0" : "=m"(frame->x87_cw));  // NOLINT(hicpp-no-assembler)
 		assert((reinterpret_cast<uintptr_t>(sp) % 16) == 0xc);
 #elif defined(__x86_64__)
 		// The restore code adds 72 byte and ret another 8. Since we want
@@ -183,6 +186,9 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// Start with the floating point environment of the creator
+		asm volatile("stmxcsr %0" : "=m"(frame->mmx_cw)); // NOLINT(hicpp-no-assembler)
+		asm volatile("fnstcw %0" : "=m"(frame->x87_cw));  // NOLINT(hicpp-no-assembler)
 #elif defined(__arm__)
 		// Stack needs to be 64bit aligned for vstmia
 		sp -= 16;
-- 
2.43.0


From 6a78651b37fd71f198ff45fb7d299200ad23e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 54/69] fix: fiber<void> kept a reference to lvalue callables

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 3086a4a..455f03b 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -729,7 +729,7 @@ namespace asyncpp::detail {
 	template<typename FN>
 	static coroutine_handle<> make_fiber_handle(size_t stack_size, FN&& cbfn) {
 		struct handle : fiber_handle_base {
-			FN function;
+			std::decay_t<FN> function;
 			explicit handle(FN&& cbfn) : function(std::forward<FN>(cbfn)) {}
 		};
 
-- 
2.43.0


From 2bcc86998903a1b2ebfdc1e2e51ad14e25ca1fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 55/69] fix: fiber handle was used after the fiber got
 suspended

Once await_suspend ran the fiber can be resumed, finished and destroyed on
another thread. Also handles an await_suspend returning the handle of the
fiber itself, which resumed the fiber while its resume loop was active.
---
 include/asyncpp/fiber.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 455f03b..fb84e5e 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -689,7 +689,7 @@ namespace asyncpp::detail {
 		detail::fiber_context fiber_context{};
 		detail::stack_context fiber_stack{};
 
-		bool (*suspend_handler)(void* ptr, coroutine_handle<> hndl) = nullptr;
+		coroutine_handle<> (*suspend_handler)(void* ptr, coroutine_handle<> hndl) = nullptr;
 		void* suspend_handler_ptr = nullptr;
 		std::exception_ptr suspend_exception = nullptr;
 
@@ -759,13 +759,22 @@ namespace asyncpp::detail {
 				if (hndl->suspend_handler) {
 					auto handler = std::exchange(hndl->suspend_handler, nullptr);
 					auto ptr = std::exchange(hndl->suspend_handler_ptr, nullptr);
+					const auto self = coroutine_handle<>::from_address(static_cast<void*>(hndl));
+					auto next = self;
 					try {
-						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) break;
+						next = handler(ptr, self);
 					} catch (...) { hndl->suspend_exception = std::current_exception(); }
+					if (next != self) {
+						// The fiber might already have been resumed or destroyed
+						// by someone else, so hndl must not be used anymore.
+						g_current_fiber = old;
+						if (next) next.resume();
+						return;
+					}
 				}
 			}
 			g_current_fiber = old;
-			if (hndl->resume_cb == nullptr && hndl->continuation != nullptr) { hndl->continuation.resume(); }
+			if (hndl->continuation != nullptr) { hndl->continuation.resume(); }
 		};
 		hndl->destroy_cb = [](fiber_handle_base* hndl) {
 			// Signal destruction and resume, then delete self
@@ -857,15 +866,15 @@ namespace asyncpp::detail {
 #endif
 			using AwaitResult = decltype(awaiter.await_suspend(std::declval<coroutine_handle<>>()));
 			using Awaiter = std::remove_reference_t<T>;
-			hndl->suspend_handler = [](void* ptr, coroutine_handle<> hndl) {
+			// Returns the handle to resume next, which is the fiber itself if it should not suspend.
+			hndl->suspend_handler = [](void* ptr, coroutine_handle<> hndl) -> coroutine_handle<> {
 				if constexpr (std::is_same_v<AwaitResult, void>) {
 					static_cast<Awaiter*>(ptr)->await_suspend(hndl);
-					return true;
+					return nullptr;
 				} else if constexpr (std::is_same_v<AwaitResult, bool>) {
-					return static_cast<Awaiter*>(ptr)->await_suspend(hndl);
+					return static_cast<Awaiter*>(ptr)->await_suspend(hndl) ? coroutine_handle<>{} : hndl;
 				} else { // Treat everything else as a coroutine_handle to resume
-					static_cast<Awaiter*>(ptr)->await_suspend(hndl).resume();
-					return true;
+					return static_cast<Awaiter*>(ptr)->await_suspend(hndl);
 				}
 			};
 			hndl->suspend_handler_ptr = const_cast<std::remove_const_t<Awaiter>*>(std::addressof(awaiter));
-- 
2.43.0


From bdc2e907f6b77a6aee7d5d35af0c4189543b4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:09 +0000
Subject: [PATCH 56/69] fix: fibers shared the exceptions in flight with the
 thread resuming them

Suspending inside of a catch handler, continuing on another thread or being
resumed while the resuming thread handles an exception mixed them up.
---
 include/asyncpp/fiber.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index fb84e5e..6fabd0a 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -18,6 +18,7 @@
 
 #ifndef _WIN32
 
+#include <cxxabi.h>
 #include <sys/mman.h>
 #include <unistd.h>
 
@@ -41,6 +42,21 @@ namespace asyncpp::detail {
 		size_t mmap_size;
 	};
 
+	/// \brief Exceptions being handled or thrown, see "Caught Exception Stack" in the Itanium C++ ABI
+	struct fiber_exception_state {
+		void* caught_exceptions;
+		unsigned int uncaught_exceptions;
+	};
+
+	/// \brief Exchange the exception state of the current thread with the supplied one
+	inline void fiber_swap_exception_state(fiber_exception_state& state) noexcept {
+		fiber_exception_state current; // NOLINT(cppcoreguidelines-pro-type-member-init)
+		auto globals = static_cast<void*>(abi::__cxa_get_globals());
+		memcpy(&current, globals, sizeof(current));
+		memcpy(globals, &state, sizeof(state));
+		state = current;
+	}
+
 	inline bool fiber_allocate_stack(stack_context& ctx, size_t size) noexcept {
 		static size_t pagesize = sysconf(_SC_PAGESIZE);
 
@@ -613,6 +629,10 @@ namespace asyncpp::detail {
 		size_t stack_size;
 	};
 
+	// WinFiber manages the exception state itself
+	struct fiber_exception_state {};
+	inline void fiber_swap_exception_state(fiber_exception_state& state) noexcept {}
+
 	inline bool fiber_allocate_stack(stack_context& ctx, size_t size) noexcept {
 		static size_t pagesize = []() {
 			SYSTEM_INFO si;
@@ -688,6 +708,7 @@ namespace asyncpp::detail {
 		detail::fiber_context main_context{};
 		detail::fiber_context fiber_context{};
 		detail::stack_context fiber_stack{};
+		detail::fiber_exception_state exception_state{};
 
 		coroutine_handle<> (*suspend_handler)(void* ptr, coroutine_handle<> hndl) = nullptr;
 		void* suspend_handler_ptr = nullptr;
@@ -748,7 +769,10 @@ namespace asyncpp::detail {
 				hndl->tsan_parent = __tsan_get_current_fiber();
 				__tsan_switch_to_fiber(hndl->tsan_fiber, 0);
 #endif
+				// Each fiber has its own exceptions in flight. It might also continue on another thread.
+				detail::fiber_swap_exception_state(hndl->exception_state);
 				detail::fiber_swapcontext(&hndl->main_context, &hndl->fiber_context);
+				detail::fiber_swap_exception_state(hndl->exception_state);
 #if ASYNCPP_HAS_ASAN
 				const void* fiber_stack;
 				size_t fiber_stack_size;
-- 
2.43.0


From c698d5db77777e43952b97786f6f8d63af1efcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:25 +0000
Subject: [PATCH 57/69] fix: destroying a suspended fiber resumed the coroutine
 awaiting it

---
 include/asyncpp/fiber.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 6fabd0a..f90c241 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -804,6 +804,7 @@ namespace asyncpp::detail {
 			// Signal destruction and resume, then delete self
 			if (hndl->resume_cb != nullptr && hndl->was_started) {
 				hndl->want_destroy = true;
+				hndl->continuation = nullptr; // The fiber did not finish, so nobody gets resumed
 				hndl->resume_cb(hndl);
 				assert(hndl->resume_cb == nullptr);
 			}
-- 
2.43.0


From a04bdfcee0dc2f6ee42c12290126fb441a82ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 58/69] fix: fib_await used the current fiber of another thread

If a fiber continued on another thread the compiler reused the address of the
thread local variable of the previous thread.
---
 include/asyncpp/fiber.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index f90c241..850287f 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -745,6 +745,22 @@ namespace asyncpp::detail {
 	thread_local fiber_handle_base* g_current_fiber = nullptr;
 #endif
 
+	// A fiber can continue on another thread, but the compiler assumes that the
+	// address of a thread_local does not change inside of a function and would
+	// use the variable of the first thread. Hence this must not be inlined into fibers.
+#if defined(_MSC_VER)
+	__declspec(noinline)
+#else
+	__attribute__((noinline))
+#endif
+	inline fiber_handle_base*
+	fiber_current() noexcept {
+#if !defined(_MSC_VER)
+		asm volatile(""); // NOLINT(hicpp-no-assembler) Prevents merging of calls
+#endif
+		return g_current_fiber;
+	}
+
 	struct fiber_destroy_requested_exception {};
 
 	template<typename FN>
@@ -882,7 +898,7 @@ namespace asyncpp::detail {
 			// await_suspend, passing the handle, and resume the correct handle
 			// if needed. Special handling is needed for exceptions thrown in
 			// await_suspend (which need to get rethrown in the fiber).
-			auto hndl = detail::g_current_fiber;
+			auto hndl = detail::fiber_current();
 			assert(hndl != nullptr);
 #ifdef __linux__
 			assert(__builtin_frame_address(0) > hndl->fiber_stack.mmap_base);
-- 
2.43.0


From a7f3a92cf9c1040f8f6d5663d0a3e7efe0b2caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 59/69] fix: fib_await did not work outside of the translation
 unit creating the fiber

The static variable holding the current fiber existed once per translation unit.
---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 850287f..eb47220 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -738,7 +738,7 @@ namespace asyncpp::detail {
 #if defined(ASYNCPP_SO_COMPAT)
 	extern thread_local fiber_handle_base* g_current_fiber;
 #else
-	inline static thread_local fiber_handle_base* g_current_fiber = nullptr;
+	inline thread_local fiber_handle_base* g_current_fiber = nullptr;
 #endif
 
 #if defined(ASYNCPP_SO_COMPAT_IMPL)
-- 
2.43.0


From dcf747ba71cea036a0ef046df160d4251a503e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 60/69] fix: dispatcher::current() returned the dispatcher of
 the previous thread inside of fibers

---
 include/asyncpp/dispatcher.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/dispatcher.h b/include/asyncpp/dispatcher.h
index b0786e9..a3aac96 100644
--- a/include/asyncpp/dispatcher.h
+++ b/include/asyncpp/dispatcher.h
@@ -45,7 +45,19 @@ namespace asyncpp {
          * Returns the current dispatcher, or nullptr if the current thread is
          * not associated with a dispatcher.
          */
-		static dispatcher* current() noexcept { return g_current_dispatcher; }
+#if defined(_MSC_VER)
+		__declspec(noinline)
+#else
+		__attribute__((noinline))
+#endif
+		static dispatcher* current() noexcept {
+			// Not inlined because a fiber can change the thread in the middle of a function, but the compiler
+			// assumes that the address of a thread_local stays the same and would query the previous thread.
+#if !defined(_MSC_VER)
+			asm volatile(""); // NOLINT(hicpp-no-assembler) Prevents merging of calls
+#endif
+			return g_current_dispatcher;
+		}
 	};
 
 #if defined(ASYNCPP_SO_COMPAT_IMPL)
-- 
2.43.0


From 8f7c2393879521ac32a63789bd6f409cc4f4f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 61/69] fix: simple_dispatcher::run() did not restore the
 current dispatcher if a callback throws

---
 include/asyncpp/simple_dispatcher.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 0382a92..f65e743 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -42,7 +42,11 @@ namespace asyncpp {
          * \brief Block and process tasks pushed to it until stop is called.
          */
 		void run() {
-			dispatcher* const old_dispatcher = dispatcher::current(this);
+			// Restores the previous dispatcher, even if a callback throws
+			struct restore_dispatcher {
+				dispatcher* const old_dispatcher;
+				~restore_dispatcher() { dispatcher::current(old_dispatcher); }
+			} const restore{dispatcher::current(this)};
 			while (true) {
 				std::unique_lock lck{m_mtx};
 				if (m_done) break;
@@ -55,7 +59,6 @@ namespace asyncpp {
 				lck.unlock();
 				if (cbfn) cbfn();
 			}
-			dispatcher::current(old_dispatcher);
 		}
 	};
 } // namespace asyncpp
-- 
2.43.0


From 69cd9e393f563dcb1bf57f525baca2742240e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 62/69] fix: copying a threadsafe_queue did not compile

The mutex was not mutable and non const lvalues selected the forwarding constructor.
---
 include/asyncpp/threadsafe_queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index 3244203..82e41e7 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -3,6 +3,7 @@
 #include <mutex>
 #include <optional>
 #include <queue>
+#include <type_traits>
 #include <utility>
 
 namespace asyncpp {
@@ -14,7 +15,7 @@ namespace asyncpp {
 	 */
 	template<typename T, typename Container = std::deque<T>>
 	class threadsafe_queue {
-		std::mutex m_mutex{};
+		mutable std::mutex m_mutex{};
 		std::queue<T, Container> m_queue{};
 
 	public:
@@ -23,6 +24,7 @@ namespace asyncpp {
 		* \param args Arguments to forward to the container constructor
 		*/
 		template<typename... Args>
+			requires(sizeof...(Args) != 1 || !(std::is_base_of_v<threadsafe_queue, std::remove_cvref_t<Args>> && ...))
 		explicit threadsafe_queue(Args&&... args) : m_queue(std::forward<Args>(args)...) {}
 
 		threadsafe_queue(const threadsafe_queue& other) {
-- 
2.43.0


From 988db786c1759652c72036e66a597245880597e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 63/69] fix: allocators stored with a coroutine frame were
 never destroyed

operator delete moved the allocator out of the frame, but did not destroy the moved from object.
---
 include/asyncpp/detail/promise_allocator_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index 66939c0..f3eeb01 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -42,6 +42,7 @@ namespace asyncpp::detail {
 			} else {
 				allocator_type* info = static_cast<allocator_type*>(ptr) - 1;
 				auto alloc = std::move(*info);
+				info->~allocator_type();
 				std::allocator_traits<allocator_type>::deallocate(
 					alloc, static_cast<std::byte*>(static_cast<void*>(info)), size + sizeof(Allocator));
 			}
-- 
2.43.0


From 2a3c5b535561a1c5d22a2d3636e5acf7e4ca8528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 64/69] fix: coroutine frames were misaligned when using
 statefull allocators

The frame was placed sizeof(allocator) bytes into memory only aligned for bytes. Store the allocator behind the frame
and align the frame instead.
---
 .../asyncpp/detail/promise_allocator_base.h   | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index f3eeb01..3d4bf54 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -2,6 +2,10 @@
 #include <asyncpp/detail/concepts.h>
 #include <asyncpp/detail/parameter_pack.h>
 #include <asyncpp/detail/std_import.h>
+#include <cstddef>
+#include <cstdint>
+#include <memory>
+#include <new>
 #include <type_traits>
 
 namespace asyncpp {
@@ -15,6 +19,21 @@ namespace asyncpp {
 namespace asyncpp::detail {
 	template<ByteAllocator Allocator>
 	class promise_allocator_base {
+		// Statefull allocators are stored behind the frame, because the frame has to be aligned like memory returned by
+		// operator new, while the allocator only guarantees the alignment of a byte.
+		struct trailer {
+			Allocator alloc;
+			std::byte* base;
+		};
+		static constexpr size_t alignment =
+			alignof(trailer) > __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? alignof(trailer) : __STDCPP_DEFAULT_NEW_ALIGNMENT__;
+		static constexpr size_t trailer_offset(size_t size) noexcept {
+			return (size + alignof(trailer) - 1) / alignof(trailer) * alignof(trailer);
+		}
+		static constexpr size_t total_size(size_t size) noexcept {
+			return trailer_offset(size) + sizeof(trailer) + alignment - 1;
+		}
+
 	public:
 		using allocator_type = Allocator;
 
@@ -29,9 +48,11 @@ namespace asyncpp::detail {
 				static_assert(std::is_convertible_v<std::remove_cvref_t<decltype(alloc)>&, allocator_type> ||
 								  std::is_constructible_v<allocator_type, decltype(alloc)>,
 							  "last argument is not of allocator type");
-				auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, size + sizeof(allocator_type));
-				auto aptr = new (ptr) allocator_type{std::move(alloc)};
-				return aptr + 1;
+				std::byte* const base = std::allocator_traits<allocator_type>::allocate(alloc, total_size(size));
+				const auto misaligned = reinterpret_cast<std::uintptr_t>(base) % alignment;
+				std::byte* const ptr = misaligned == 0 ? base : base + (alignment - misaligned);
+				new (ptr + trailer_offset(size)) trailer{std::move(alloc), base};
+				return ptr;
 			}
 		}
 		void operator delete(void* ptr, size_t size) {
@@ -40,11 +61,12 @@ namespace asyncpp::detail {
 				allocator_type alloc{};
 				std::allocator_traits<allocator_type>::deallocate(alloc, static_cast<std::byte*>(ptr), size);
 			} else {
-				allocator_type* info = static_cast<allocator_type*>(ptr) - 1;
-				auto alloc = std::move(*info);
-				info->~allocator_type();
-				std::allocator_traits<allocator_type>::deallocate(
-					alloc, static_cast<std::byte*>(static_cast<void*>(info)), size + sizeof(Allocator));
+				trailer* info =
+					std::launder(reinterpret_cast<trailer*>(static_cast<std::byte*>(ptr) + trailer_offset(size)));
+				auto alloc = std::move(info->alloc);
+				std::byte* const base = info->base;
+				info->~trailer();
+				std::allocator_traits<allocator_type>::deallocate(alloc, base, total_size(size));
 			}
 		}
 	};
-- 
2.43.0


From 30a19cfbb3146f93ad3821d7cab660fb3e4a7c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 65/69] fix: thread_pool survives threads that can not be
 started

If starting a thread failed, resize() left empty entries behind, which later got dereferenced, and the constructor terminated the program, because it left running threads behind.
---
 include/asyncpp/thread_pool.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 23ce019..06e24a1 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -29,7 +29,15 @@ namespace asyncpp {
 		 * \brief Construct a new thread pool
 		 * \param initial_size The initial number of threads to spawn
 		 */
-		explicit thread_pool(size_t initial_size = std::thread::hardware_concurrency()) { this->resize(initial_size); }
+		explicit thread_pool(size_t initial_size = std::thread::hardware_concurrency()) {
+			try {
+				this->resize(initial_size);
+			} catch (...) {
+				// The destructor does not run, so stop the threads that could be started
+				this->resize(0);
+				throw;
+			}
+		}
 		~thread_pool() { this->resize(0); }
 		thread_pool(const thread_pool&) = delete;
 		thread_pool& operator=(const thread_pool&) = delete;
@@ -78,13 +86,23 @@ namespace asyncpp {
 				std::unique_lock lck{m_threads_mtx};
 				m_threads.resize(target_size);
 			} else if (old < target_size) {
-				m_target_size = target_size;
 				std::unique_lock threads_lck{m_threads_mtx};
 				m_threads.resize(target_size);
 				threads_lck.unlock();
+				m_target_size = target_size;
 				// We need some new threads, spawn them with the relevant indexes
 				for (size_t i = old; i < target_size; i++) {
-					m_threads[i] = std::make_unique<thread_state>(this, i);
+					try {
+						m_threads[i] = std::make_unique<thread_state>(this, i);
+					} catch (...) {
+						// Keep the threads that could be started
+						m_target_size = i;
+						threads_lck.lock();
+						m_threads.resize(i);
+						threads_lck.unlock();
+						m_valid_size = i;
+						throw;
+					}
 				}
 				// Allow pushing work to our new threads
 				m_valid_size = target_size;
-- 
2.43.0


From 520b90a318e4cc0307ae54a7a3ae59b806e7885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 66/69] fix: timer did not accept durations that do not convert
 implicitly to nanoseconds

E.g. waiting for a duration with a floating point representation did not compile, because the overloads called each other.
---
 include/asyncpp/timer.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 5b0310f..f17bf7e 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -124,7 +124,7 @@ namespace asyncpp {
 		 */
 		template<typename Clock, typename Duration>
 		void schedule(std::function<void(bool)> cbfn, std::chrono::time_point<Clock, Duration> timeout) {
-			schedule(std::move(cbfn), timeout - Clock::now());
+			schedule(std::move(cbfn), std::chrono::ceil<std::chrono::nanoseconds>(timeout - Clock::now()));
 		}
 
 		/**
@@ -168,7 +168,8 @@ namespace asyncpp {
 		template<typename Clock, typename Duration>
 		void schedule(std::function<void(bool)> cbfn, std::chrono::time_point<Clock, Duration> timeout,
 					  asyncpp::stop_token stoken) {
-			schedule(std::move(cbfn), timeout - Clock::now(), std::move(stoken));
+			schedule(std::move(cbfn), std::chrono::ceil<std::chrono::nanoseconds>(timeout - Clock::now()),
+					 std::move(stoken));
 		}
 
 		/**
@@ -205,7 +206,8 @@ namespace asyncpp {
 		 */
 		template<typename Rep, typename Period>
 		auto wait(std::chrono::duration<Rep, Period> timeout) noexcept {
-			return wait(std::chrono::steady_clock::now() + timeout);
+			// Rounded up, because not all durations convert implicitly and we must not resume too early
+			return wait(std::chrono::steady_clock::now() + std::chrono::ceil<std::chrono::nanoseconds>(timeout));
 		}
 		/**
 		 * \brief Get an awaitable that pauses the current coroutine until the specified duration is elapsed.
@@ -257,7 +259,9 @@ namespace asyncpp {
 		 */
 		template<typename Rep, typename Period>
 		auto wait(std::chrono::duration<Rep, Period> timeout, asyncpp::stop_token stoken) noexcept {
-			return wait(std::chrono::steady_clock::now() + timeout, std::move(stoken));
+			// Rounded up, because not all durations convert implicitly and we must not resume too early
+			return wait(std::chrono::steady_clock::now() + std::chrono::ceil<std::chrono::nanoseconds>(timeout),
+						std::move(stoken));
 		}
 		/**
 		 * \brief Get an awaitable that pauses the current coroutine until the specified duration is elapsed, allows cancellation.
-- 
2.43.0


From 2df7291d60ac9fc2f32849d82a1a9340cdd31760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 67/69] fix: a fiber with a stack size close to SIZE_MAX was
 made with an empty stack

---
 include/asyncpp/fiber.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index eb47220..151ccff 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -60,6 +60,9 @@ namespace asyncpp::detail {
 	inline bool fiber_allocate_stack(stack_context& ctx, size_t size) noexcept {
 		static size_t pagesize = sysconf(_SC_PAGESIZE);
 
+		// Rounding up and adding the guard pages must not overflow
+		if (size > SIZE_MAX - 3 * pagesize) return false;
+
 		// Round the stacksize to the next multiple of pages
 		const auto page_count = (size + pagesize - 1) / pagesize;
 		size = page_count * pagesize;
-- 
2.43.0


From bee3acb2038b16d613b01eda6c7e090cead30b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 68/69] fix: single_consumer_auto_reset_event could lose a
 set() running concurrent to one that releases a coroutine

---
 include/asyncpp/event.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index b4b0156..b5bb29f 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -197,14 +197,13 @@ namespace asyncpp {
          * \return true if a coroutine has been waiting and was resumed
          */
 		bool set(dispatcher* resume_dispatcher = nullptr) noexcept {
-			auto state = m_state.exchange(this, std::memory_order::release);
+			void* state = m_state.load(std::memory_order::relaxed);
+			// Take the awaiter and reset the event in one step, otherwise a concurrent call to set() would get lost
+			while (!m_state.compare_exchange_weak(state, state != nullptr && state != this ? nullptr : this,
+												  std::memory_order::acq_rel, std::memory_order::relaxed)) {}
 			if (state != nullptr && state != this) {
 				auto await = static_cast<awaiter*>(state);
 
-				// Only modify the state if it has not been changed in between
-				state = this;
-				m_state.compare_exchange_strong(state, nullptr, std::memory_order::acq_rel);
-
 				assert(await->m_parent == this);
 				assert(await->m_handle);
 				if (await->m_dispatcher != nullptr) {
-- 
2.43.0


From bc40b2cd308b050d40d6d49e3b3b566c473136e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 69/69] fix: what was written before setting a set
 multi_consumer_auto_reset_event has to be visible to its consumer

---
 include/asyncpp/event.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index b5bb29f..75f5ec4 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -482,12 +482,11 @@ namespace asyncpp {
 			void* old_state = m_state.load(std::memory_order::acquire);
 			void* new_state;
 			do {
-				// If the state is already set we can just return
-				if (old_state == this) return false;
-				// Otherwise store the state as an awaiter
-				await = static_cast<awaiter*>(old_state);
-				// if the event had awaiters we update the state to "unset", if it was previously unset we transition to set
-				new_state = (old_state == nullptr) ? this : nullptr;
+				// If the state is not already set it is an awaiter
+				await = old_state == this ? nullptr : static_cast<awaiter*>(old_state);
+				// If the event had awaiters we update the state to "unset", if it was previously unset we transition to set.
+				// A set event is written as well, because everything before this call has to be visible to the consumer.
+				new_state = (await == nullptr) ? this : nullptr;
 			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::acq_rel,
 													std::memory_order::acquire));
 
-- 
2.43.0

