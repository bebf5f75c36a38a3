#pragma once
#include <functional>
namespace absl { class Cleanup { public: template <class F> Cleanup(F f) : f_(f) {} ~Cleanup() { if (f_) f_(); } void Cancel() && { f_ = nullptr; } void Invoke() && { f_(); f_ = nullptr; } private: std::function<void()> f_; }; template <class F> Cleanup MakeCleanup(F f) { return Cleanup(f); } }
