#pragma once
#include <condition_variable>
#include <functional>
#include <mutex>
#include <shared_mutex>
#include "absl/time/time.h"
namespace absl {
struct Condition { std::function<bool()> f; template <class F> explicit Condition(F* g) : f([g] { return (*g)(); }) {} explicit Condition(const bool* b) : f([b] { return *b; }) {}
  template <class T> Condition(bool (*fn)(T*), T* a) : f([fn, a] { return fn(a); }) {}
  template <class T> Condition(T* o, bool (T::*m)()) : f([o, m] { return (o->*m)(); }) {}
  template <class T> Condition(const T* o, bool (T::*m)() const) : f([o, m] { return (o->*m)(); }) {} };
class Mutex {
 public:
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); cv_.notify_all(); }
  bool TryLock() { return m_.try_lock(); }
  void ReaderLock() { Lock(); }
  void ReaderUnlock() { Unlock(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void AssertHeld() const {}
  void Await(const Condition& c) { std::unique_lock<std::mutex> g(m_, std::adopt_lock); while (!c.f()) cv_.wait_for(g, std::chrono::milliseconds(2)); g.release(); }
  bool AwaitWithTimeout(const Condition& c, Duration d) { std::unique_lock<std::mutex> g(m_, std::adopt_lock); auto e = std::chrono::steady_clock::now() + d; while (!c.f() && std::chrono::steady_clock::now() < e) cv_.wait_for(g, std::chrono::milliseconds(2)); bool r = c.f(); g.release(); return r; }
  void LockWhen(const Condition& c) { Lock(); Await(c); }
  std::mutex& raw() { return m_; }
 private:
  std::mutex m_;
  std::condition_variable cv_;
};
struct MutexLock { Mutex* m; explicit MutexLock(Mutex* x) : m(x) { m->Lock(); } ~MutexLock() { m->Unlock(); } };
struct ReaderMutexLock : MutexLock { using MutexLock::MutexLock; };
struct WriterMutexLock : MutexLock { using MutexLock::MutexLock; };
class CondVar { public: void Wait(Mutex* m) { std::unique_lock<std::mutex> g(m->raw(), std::adopt_lock); c_.wait(g); g.release(); }
  void Signal() { c_.notify_one(); } void SignalAll() { c_.notify_all(); }
 private: std::condition_variable c_; };
}  // namespace absl
#ifndef ABSL_GUARDED_BY
#define ABSL_GUARDED_BY(x)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_LOCKS_EXCLUDED(...)
#endif
