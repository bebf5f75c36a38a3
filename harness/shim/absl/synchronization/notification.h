#pragma once
#include "absl/synchronization/mutex.h"
namespace absl {
class Notification { public:
  void Notify() { std::lock_guard<std::mutex> g(m_); d_ = true; c_.notify_all(); }
  bool HasBeenNotified() const { std::lock_guard<std::mutex> g(m_); return d_; }
  void WaitForNotification() const { std::unique_lock<std::mutex> g(m_); c_.wait(g, [&] { return d_; }); }
  bool WaitForNotificationWithTimeout(Duration t) const { std::unique_lock<std::mutex> g(m_); return c_.wait_for(g, t, [&] { return d_; }); }
 private: mutable std::mutex m_; mutable std::condition_variable c_; bool d_ = false; };
}  // namespace absl
