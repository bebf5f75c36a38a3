#pragma once
#include <chrono>
#include <cstdint>
#include <thread>
namespace absl {
using Duration = std::chrono::nanoseconds;
using Time = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>;
template <class T> Duration Milliseconds(T n) { return std::chrono::duration_cast<Duration>(std::chrono::duration<double, std::milli>(n)); }
template <class T> Duration Seconds(T n) { return std::chrono::duration_cast<Duration>(std::chrono::duration<double>(n)); }
template <class T> Duration Microseconds(T n) { return std::chrono::duration_cast<Duration>(std::chrono::duration<double, std::micro>(n)); }
inline Time Now() { return std::chrono::time_point_cast<Duration>(std::chrono::system_clock::now()); }
inline int64_t ToUnixMillis(Time t) { return std::chrono::duration_cast<std::chrono::milliseconds>(t.time_since_epoch()).count(); }
inline int64_t ToUnixSeconds(Time t) { return ToUnixMillis(t) / 1000; }
inline int64_t ToUnixMicros(Time t) { return std::chrono::duration_cast<std::chrono::microseconds>(t.time_since_epoch()).count(); }
inline int64_t ToInt64Milliseconds(Duration d) { return d.count() / 1000000; }
inline double ToDoubleSeconds(Duration d) { return d.count() / 1e9; }
inline void SleepFor(Duration d) { std::this_thread::sleep_for(d); }
}  // namespace absl
