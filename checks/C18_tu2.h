#pragma once
#include <coroutine>
#include <functional>
// Fibers created and suspended by another translation unit than the one they are used in.
void c18_pause(std::coroutine_handle<>* slot);
asyncpp::fiber<void> c18_make(std::function<void()> fn, std::size_t stack);
