#include "../lib/vrt_shim.h"
#include <asyncpp/fiber.h>
#include "C18_tu2.h"
namespace {
	struct Pause {
		std::coroutine_handle<>* slot;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> hd) { *slot = hd; }
		void await_resume() {}
	};
} // namespace
void c18_pause(std::coroutine_handle<>* slot) { fib_await Pause{slot}; }
asyncpp::fiber<void> c18_make(std::function<void()> fn, std::size_t stack) { return asyncpp::fiber<void>(std::move(fn), stack); }
