#pragma once
// Tracing that records nothing.
#include <cstddef>
#include <memory>
#include <string>
#include <vector>
namespace perfetto {
struct Category { Category(const char*) {} Category& SetDescription(const char*) { return *this; } };
enum BackendType { kInProcessBackend = 1, kSystemBackend = 2 };
struct TracingInitArgs { unsigned backends = 0; };
struct BufferCfg_ { void set_size_kb(unsigned) {} };
struct DsCfg_ { void set_name(const std::string&) {} };
struct Ds_ { DsCfg_ c; DsCfg_* mutable_config() { return &c; } };
struct TraceConfig { BufferCfg_ b; Ds_ d; BufferCfg_* add_buffers() { return &b; } Ds_* add_data_sources() { return &d; } };
struct TracingSession {
  void Setup(const TraceConfig&) {}
  void StartBlocking() {}
  void StopBlocking() {}
  std::vector<char> ReadTraceBlocking() { return std::vector<char>(1, '\n'); }
};
struct Tracing {
  static void Initialize(const TracingInitArgs&) {}
  static std::unique_ptr<TracingSession> NewTrace() { return std::make_unique<TracingSession>(); }
};
namespace protos::gen {
struct ProcessDescriptor { void set_process_name(const std::string&) {} };
struct TrackDescriptor { ProcessDescriptor p; ProcessDescriptor* mutable_process() { return &p; } };
}
struct ProcessTrack { static ProcessTrack Current() { return {}; } protos::gen::TrackDescriptor Serialize() const { return {}; } };
struct TrackEvent {
  static void Register() {}
  static void Flush() {}
  static void SetTrackDescriptor(const ProcessTrack&, const protos::gen::TrackDescriptor&) {}
};
}  // namespace perfetto
#define PERFETTO_DEFINE_CATEGORIES(...)
#define PERFETTO_TRACK_EVENT_STATIC_STORAGE()
#define TRACE_EVENT(...) do {} while (0)
#define TRACE_EVENT_BEGIN(...) do {} while (0)
#define TRACE_EVENT_END(...) do {} while (0)
