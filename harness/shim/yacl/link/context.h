// Stand-in for yacl's link: same message semantics (FIFO per context and direction, tags are not matched,
// collectives built from point-to-point messages, consumption-based send window), pluggable transport.
#pragma once
#include "absl/numeric/bits.h"
#include "spdlog/spdlog.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
namespace yacl::link {
constexpr size_t kAllRank = std::numeric_limits<size_t>::max();
struct SSLOptions {};
struct ContextDesc {
  struct Party { std::string id; std::string host; Party() = default; Party(std::string i, std::string h) : id(i), host(h) {} };
  std::string id = "root";
  std::vector<Party> parties;
  uint32_t connect_retry_times = 10, connect_retry_interval_ms = 1000, recv_timeout_ms = 30000, http_max_payload_size = 1 << 19,
           http_timeout_ms = 20000, throttle_window_size = 10, chunk_parallel_send_size = 8;
  uint64_t brpc_retry_count = 3, brpc_retry_interval_ms = 1000, brpc_max_retry_interval_ms = 10000;
  std::string brpc_channel_protocol = "baidu_std", brpc_channel_connection_type, link_type = "normal";
  bool enable_ssl = false, exit_if_async_error = false, brpc_aggressive_retry = true, disable_msg_seq_id = false;
  ContextDesc() = default;
  template <typename Pb, typename = decltype(std::declval<Pb>().parties())>
  ContextDesc(const Pb& pb) { id = pb.id(); for (auto& p : pb.parties()) parties.push_back({p.id(), p.host()}); }
};
}  // namespace yacl::link
namespace verif {
struct WireMsg { size_t src, dst; std::string ctx, tag, bytes; };
// One Hub per group of parties. Keys are (context id, global src, global dst).
class Hub {
 public:
  using Key = std::tuple<std::string, size_t, size_t>;
  explicit Hub(size_t n) : n_(n), closed_(n, false) {}
  virtual ~Hub() = default;
  size_t size() const { return n_; }
  virtual void Put(const Key& k, std::string bytes) {
    std::lock_guard<std::mutex> g(mu_);
    q_[k].push_back(std::move(bytes));
    cv_.notify_all();
  }
  virtual void Acked(const Key& k) { std::lock_guard<std::mutex> g(mu_); acked_[k]++; cv_.notify_all(); }
  std::string Take(const Key& k, int64_t timeout_ms) {
    std::string r;
    {
      std::unique_lock<std::mutex> g(mu_);
      size_t src = std::get<1>(k), dst = std::get<2>(k);
      bool ok = cv_.wait_for(g, std::chrono::milliseconds(timeout_ms), [&] { return !q_[k].empty() || closed_[src] || closed_[dst]; });
      auto& q = q_[k];
      if (q.empty()) {
        if (!ok) timeouts_++;
        throw yacl::IoError(ok ? "peer is gone" : "Get data timeout");
      }
      r = std::move(q.front());
      q.pop_front();
    }
    Acked(k);
    return r;
  }
  void WaitWindow(const Key& k, uint64_t sent, uint64_t window, int64_t timeout_ms) {
    if (window == 0) return;
    std::unique_lock<std::mutex> g(mu_);
    size_t dst = std::get<2>(k), src = std::get<1>(k);
    bool ok = cv_.wait_for(g, std::chrono::milliseconds(timeout_ms), [&] { return sent < acked_[k] + window || closed_[dst] || closed_[src]; });
    if (sent >= acked_[k] + window) { if (!ok) timeouts_++; throw yacl::IoError("Throttle window wait timeout"); }
  }
  virtual void Close(size_t rank) { std::lock_guard<std::mutex> g(mu_); closed_[rank] = true; cv_.notify_all(); }
  size_t Undelivered() { std::lock_guard<std::mutex> g(mu_); size_t c = 0; for (auto& [k, q] : q_) c += q.size(); return c; }
  void Log(WireMsg m) { if (record) { std::lock_guard<std::mutex> g(lmu_); log.push_back(std::move(m)); } }
  bool record = false;
  std::vector<WireMsg> log;
  // called before every send / after every receive of global rank r: may throw (fault) or _exit (crash)
  std::function<void(size_t rank, const char* what, const std::string& tag)> hook;
  std::function<void(WireMsg&)> tamper;
  std::atomic<int> timeouts_{0};
  int64_t default_timeout_ms = 20000;
 protected:
  size_t n_;
  std::mutex mu_, lmu_;
  std::condition_variable cv_;
  std::map<Key, std::deque<std::string>> q_;
  std::map<Key, uint64_t> acked_;
  std::vector<bool> closed_;
};
}  // namespace verif
namespace yacl::link {
class Context;
class RecvTimeoutGuard;
struct Statistics { std::atomic<size_t> sent_bytes{0}, sent_actions{0}, recv_bytes{0}, recv_actions{0}; };
class Context {
 public:
  Context(std::shared_ptr<verif::Hub> hub, std::string id, std::vector<size_t> group, size_t rank, std::vector<std::string> names = {})
      : hub_(std::move(hub)), id_(std::move(id)), group_(std::move(group)), rank_(rank), names_(std::move(names)) {
    timeout_ = hub_->default_timeout_ms;
    stats_ = std::make_shared<Statistics>();
    if (names_.empty()) for (size_t g : group_) names_.push_back("party" + std::to_string(g));
  }
  std::string Id() const { return id_; }
  size_t WorldSize() const { return group_.size(); }
  size_t Rank() const { return rank_; }
  size_t PrevRank(size_t stride = 1) const { return (rank_ + group_.size() - stride % group_.size()) % group_.size(); }
  size_t NextRank(size_t stride = 1) const { return (rank_ + stride) % group_.size(); }
  const std::string& PartyIdByRank(size_t r) const { return names_.at(r); }
  void ConnectToMesh(int = 0) {}
  std::unique_ptr<Context> Spawn(const std::string& id = "") {
    auto c = std::make_unique<Context>(hub_, fmt::format("{}-{}", id_, id.empty() ? std::to_string(child_++) : id), group_, rank_, names_);
    c->timeout_ = timeout_.load(); c->window_ = window_.load();
    return c;
  }
  std::unique_ptr<Context> SubWorld(std::string_view suffix, const std::vector<std::string>& party_ids) {
    std::vector<size_t> g; std::vector<std::string> nm; size_t r = kAllRank;
    for (auto& p : party_ids) {
      size_t i = 0;
      while (i < names_.size() && names_[i] != p) ++i;
      YACL_ENFORCE(i < names_.size(), "unknown party {}", p);
      if (i == rank_) r = g.size();
      g.push_back(group_[i]); nm.push_back(p);
    }
    YACL_ENFORCE(r != kAllRank, "self party must be in the sub world");
    auto c = std::make_unique<Context>(hub_, fmt::format("{}-{}", id_, suffix), g, r, nm);
    c->timeout_ = timeout_.load(); c->window_ = window_.load();
    return c;
  }
  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag) { DoSend(dst, v, tag); }
  void SendAsync(size_t dst, Buffer&& v, std::string_view tag) { DoSend(dst, ByteContainerView(v), tag); }
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view tag) { DoSend(dst, v, tag); Throttle(dst); }
  void SendAsyncThrottled(size_t dst, Buffer&& v, std::string_view tag) { DoSend(dst, ByteContainerView(v), tag); Throttle(dst); }
  void Send(size_t dst, ByteContainerView v, std::string_view tag) { DoSend(dst, v, tag); }
  Buffer Recv(size_t src, std::string_view tag) {
    YACL_ENFORCE(src < group_.size() && src != rank_, "bad src rank {}", src);
    auto b = hub_->Take({id_, group_[src], group_[rank_]}, timeout_);
    stats_->recv_actions++; stats_->recv_bytes += b.size();
    if (hub_->hook) hub_->hook(group_[rank_], "recv", std::string(tag));
    return Buffer((const void*)b.data(), b.size());
  }
  void SetThrottleWindowSize(size_t w) { window_ = w; }
  void SetChunkParallelSendSize(size_t) {}
  void SetRecvTimeout(uint64_t ms) { timeout_ = std::min<int64_t>(ms, hub_->default_timeout_ms); }
  uint64_t GetRecvTimeout() const { return timeout_; }
  void WaitLinkTaskFinish() {}
  void AbortLink() { hub_->Close(group_[rank_]); }
  std::shared_ptr<const Statistics> GetStats() const { return stats_; }
  const std::shared_ptr<verif::Hub>& hub() const { return hub_; }
  size_t GlobalRank() const { return group_[rank_]; }
 private:
  void DoSend(size_t dst, ByteContainerView v, std::string_view tag) {
    YACL_ENFORCE(dst < group_.size() && dst != rank_, "bad dst rank {}", dst);
    if (hub_->hook) hub_->hook(group_[rank_], "send", std::string(tag));
    verif::WireMsg m{group_[rank_], group_[dst], id_, std::string(tag), std::string((const char*)v.data(), v.size())};
    hub_->Log(m);
    if (hub_->tamper) hub_->tamper(m);
    stats_->sent_actions++; stats_->sent_bytes += v.size();
    { std::lock_guard<std::mutex> g(smu_); sent_[dst]++; }
    hub_->Put({id_, group_[rank_], group_[dst]}, std::move(m.bytes));
  }
  void Throttle(size_t dst) {
    uint64_t s; { std::lock_guard<std::mutex> g(smu_); s = sent_[dst]; }
    hub_->WaitWindow({id_, group_[rank_], group_[dst]}, s, window_, timeout_);
  }
  std::shared_ptr<verif::Hub> hub_;
  std::string id_;
  std::vector<size_t> group_;
  size_t rank_;
  std::vector<std::string> names_;
  std::atomic<size_t> child_{0};
  std::atomic<size_t> window_{10};
  std::atomic<int64_t> timeout_{20000};
  std::mutex smu_;
  std::map<size_t, uint64_t> sent_;
  std::shared_ptr<Statistics> stats_;
};
class RecvTimeoutGuard {
 public:
  RecvTimeoutGuard(std::shared_ptr<Context> c, uint64_t ms) : c_(std::move(c)), old_(c_->GetRecvTimeout()) { c_->SetRecvTimeout(ms); }
  ~RecvTimeoutGuard() { c_->SetRecvTimeout(old_); }
 private:
  std::shared_ptr<Context> c_; uint64_t old_;
};
// ---- collectives (as in yacl: point-to-point messages) ----
inline std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, ByteContainerView in, std::string_view tag) {
  std::vector<Buffer> out(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); ++i) if (i != c->Rank()) c->SendAsync(i, in, tag);
  for (size_t i = 0; i < c->WorldSize(); ++i) out[i] = i == c->Rank() ? Buffer((const void*)in.data(), in.size()) : c->Recv(i, tag);
  return out;
}
inline std::vector<std::vector<Buffer>> AllGather(const std::shared_ptr<Context>& c, const std::vector<ByteContainerView>& in, std::string_view tag) {
  std::vector<std::vector<Buffer>> r;
  for (auto& v : in) r.push_back(AllGather(c, v, tag));
  return r;
}
inline std::vector<Buffer> Gather(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  std::vector<Buffer> out;
  if (c->Rank() == root) {
    out.resize(c->WorldSize());
    for (size_t i = 0; i < c->WorldSize(); ++i) out[i] = i == root ? Buffer((const void*)in.data(), in.size()) : c->Recv(i, tag);
  } else c->SendAsync(root, in, tag);
  return out;
}
inline Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  if (c->Rank() == root) {
    for (size_t i = 0; i < c->WorldSize(); ++i) if (i != root) c->SendAsync(i, in, tag);
    return Buffer((const void*)in.data(), in.size());
  }
  return c->Recv(root, tag);
}
inline Buffer Scatter(const std::shared_ptr<Context>& c, const std::vector<ByteContainerView>& in, size_t root, std::string_view tag) {
  if (c->Rank() == root) {
    for (size_t i = 0; i < c->WorldSize(); ++i) if (i != root) c->SendAsync(i, in[i], tag);
    return Buffer((const void*)in[root].data(), in[root].size());
  }
  return c->Recv(root, tag);
}
inline void Barrier(const std::shared_ptr<Context>& c, std::string_view tag) { Gather(c, "", 0, tag); Broadcast(c, "", 0, tag); }
inline std::vector<Buffer> AllToAll(const std::shared_ptr<Context>& c, const std::vector<ByteContainerView>& in, std::string_view tag) {
  std::vector<Buffer> out(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); ++i) if (i != c->Rank()) c->SendAsync(i, in[i], tag);
  for (size_t i = 0; i < c->WorldSize(); ++i) out[i] = i == c->Rank() ? Buffer((const void*)in[i].data(), in[i].size()) : c->Recv(i, tag);
  return out;
}
// what asking for a network connection gives, if anything
inline std::function<std::shared_ptr<Context>(const ContextDesc&, size_t)>& BrpcHook() {
  static std::function<std::shared_ptr<Context>(const ContextDesc&, size_t)> f;
  return f;
}
struct FactoryBrpc {
  std::shared_ptr<Context> CreateContext(const ContextDesc& d, size_t rank) {
    if (BrpcHook()) return BrpcHook()(d, rank);
    YACL_THROW("not available");
  }
};
struct FactoryMem : FactoryBrpc {};
}  // namespace yacl::link
