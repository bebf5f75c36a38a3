#pragma once
// Stand-in for Microsoft APSI: the look-up itself is an ideal one (the sender's side sees what is asked and answers with the
// label belonging to it, encrypted with the label key), the oblivious function is real Diffie-Hellman in a group of squares modulo
// a safe prime, and everything is stored and sent in simple formats of this stand-in's own.
#include <gmpxx.h>
#include <openssl/rand.h>
#include <openssl/sha.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdint>
#include <cstring>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "gsl/span"
#include "seal/all.h"
#define APSI_LOG_DEBUG(x) do { std::ostringstream o_; o_ << x; } while (0)
#define APSI_LOG_INFO(x) APSI_LOG_DEBUG(x)
#define APSI_LOG_WARNING(x) APSI_LOG_DEBUG(x)
#define APSI_LOG_ERROR(x) APSI_LOG_DEBUG(x)
#define STOPWATCH(...)
namespace apsi {
struct Log { static void SetConsoleDisabled(bool) {} static void SetLogFile(const std::string&) {} static void SetLogLevel(const std::string&) {} };
namespace util {
struct Stopwatch { struct TimespanSummary {}; struct Timepoint {}; };
inline Stopwatch recv_stopwatch, sender_stopwatch;
inline void copy_bytes(const void* s, size_t n, void* d) { memcpy(d, s, n); }
}  // namespace util
// ---- writing and reading ----
struct W { std::ostream& o; size_t n = 0; void u(uint64_t v) { o.write((char*)&v, 8); n += 8; } void s(const std::string& x) { u(x.size()); o.write(x.data(), x.size()); n += x.size(); } };
struct R {
  std::istream& i; size_t n = 0;
  uint64_t u() { uint64_t v = 0; if (!i.read((char*)&v, 8)) throw std::runtime_error("short"); n += 8; return v; }
  std::string s() { auto k = u(); if (k > 100000000) throw std::runtime_error("long"); std::string x(k, 0); if (k && !i.read(x.data(), k)) throw std::runtime_error("short"); n += k; return x; }
};
inline std::string Sha(const std::string& s) { std::string r(32, 0); SHA256((const unsigned char*)s.data(), s.size(), (unsigned char*)r.data()); return r; }
inline constexpr uint32_t apsi_serialization_version = 1;
inline bool same_serialization_version(uint32_t v) { return v == apsi_serialization_version; }
// ---- items and labels ----
class Item {
 public:
  using value_type = std::array<unsigned char, 16>;
  Item() { v_.fill(0); }
  Item(const std::string& s) { auto h = Sha("item|" + s); memcpy(v_.data(), h.data(), 16); }
  template <class T> gsl::span<T> get_as() const { return gsl::span<T>((T*)v_.data(), 16 / sizeof(T)); }
  value_type& value() { return v_; }
  const value_type& value() const { return v_; }
  std::string to_string() const { return std::string((const char*)v_.data(), 16); }
  bool operator==(const Item& o) const { return v_ == o.v_; }
 private:
  value_type v_;
};
class HashedItem : public Item { public: using Item::Item; };
using Label = std::vector<unsigned char>;
inline constexpr size_t label_key_byte_count = 32;
using LabelKey = std::array<unsigned char, label_key_byte_count>;
inline std::string XorLabel(const std::string& l, const std::string& key) {
  std::string r = l;
  for (size_t i = 0; i < r.size(); i += 32) { auto p = Sha("pad|" + key + std::to_string(i)); for (size_t j = i; j < std::min(i + 32, r.size()); ++j) r[j] ^= p[j - i]; }
  return r;
}
namespace receiver {
class LabelData {
 public:
  explicit operator bool() const { return has_; }
  template <class T> gsl::span<const T> get_as() const { if (!has_) throw std::logic_error("no label"); return gsl::span<const T>((const T*)s_.data(), s_.size() / sizeof(T)); }
  std::string to_string() const { if (!has_) throw std::logic_error("no label"); return s_; }
  void set(std::string s) { s_ = std::move(s); has_ = true; }
 private:
  std::string s_; bool has_ = false;
};
struct MatchRecord { bool found = false; LabelData label; operator bool() const { return found; } };
class IndexTranslationTable {
 public:
  size_t item_count() const { return n; }
  size_t find_item_idx(uint32_t slot) const { auto i = at.find(slot); return i == at.end() ? n : i->second; }
  size_t n = 0;
  std::map<uint32_t, size_t> at;
};
}  // namespace receiver
// ---- parameters: "<bundles> <most items in a bin>" ----
class PSIParams {
 public:
  struct Table { uint32_t max_items_per_bin = 3; };
  static PSIParams Load(const std::string& s) {
    PSIParams p; std::istringstream i(s);
    if (!(i >> p.b_ >> p.t_.max_items_per_bin) || !p.b_ || !p.t_.max_items_per_bin) throw std::runtime_error("bad parameters");
    return p;
  }
  const Table& table_params() const { return t_; }
  uint32_t bundle_idx_count() const { return b_; }
  double log2_fpp() const { return -40; }
  std::string to_string() const { return std::to_string(b_) + " " + std::to_string(t_.max_items_per_bin); }
 private:
  uint32_t b_ = 1; Table t_;
};
class PowersDag { public: uint32_t top = 0; };
template <class T> class SEALObject { public: T o; };
class CryptoContext {
 public:
  std::shared_ptr<seal::SEALContext> seal_context() const { return c_; }
  void set_evaluator(const seal::RelinKeys& k) { relin_ = k.id; }
  int relin() const { return relin_; }
 private:
  std::shared_ptr<seal::SEALContext> c_ = std::make_shared<seal::SEALContext>(); int relin_ = 0;
};
// ---- the oblivious function ----
namespace oprf {
inline const mpz_class& P() { static mpz_class p("F1B56BEA0A3B8496F990B5AAA1E9A6EA67E9DB793241BBDF06EA0476627D938B", 16); return p; }
inline const mpz_class& Q() { static mpz_class q = (P() - 1) / 2; return q; }
inline mpz_class In(const unsigned char* p, size_t n) { mpz_class r; mpz_import(r.get_mpz_t(), n, 1, 1, 0, 0, p); return r; }
inline void Out(const mpz_class& v, unsigned char* p) {
  memset(p, 0, 32); size_t n = (mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8; if (v != 0) mpz_export(p + 32 - n, nullptr, 1, 1, 0, 0, v.get_mpz_t());
}
class ECPoint {
 public:
  static constexpr size_t order_size = 32, point_size = 32, save_size = 32, hash_size = 48;
  using scalar_type = std::array<unsigned char, order_size>;
  using scalar_span_type = gsl::span<unsigned char, order_size>;
  using scalar_span_const_type = gsl::span<const unsigned char, order_size>;
  using point_save_span_type = gsl::span<unsigned char, save_size>;
  using point_save_span_const_type = gsl::span<const unsigned char, save_size>;
  using hash_span_type = gsl::span<unsigned char, hash_size>;
  ECPoint() = default;
  explicit ECPoint(gsl::span<const unsigned char> v) {
    auto h = Sha("point|" + std::string((const char*)v.data(), v.size()));
    v_ = In((const unsigned char*)h.data(), 32) % P(); v_ = v_ * v_ % P();
  }
  static void MakeRandomNonzeroScalar(scalar_span_type out) { unsigned char b[40]; RAND_bytes(b, 40); mpz_class k = In(b, 40) % (Q() - 1) + 1; Out(k, out.data()); }
  static void InvertScalar(scalar_span_const_type in, scalar_span_type out) { mpz_class r, k = In(in.data(), 32); if (!mpz_invert(r.get_mpz_t(), k.get_mpz_t(), Q().get_mpz_t())) throw std::logic_error("no inverse"); Out(r, out.data()); }
  bool scalar_multiply(scalar_span_const_type k, bool) {
    mpz_class c = v_ * 1;
    if (c <= 0 || c >= P() || mpz_legendre(c.get_mpz_t(), P().get_mpz_t()) != 1) return false;
    mpz_class e = In(k.data(), 32); mpz_powm(v_.get_mpz_t(), c.get_mpz_t(), e.get_mpz_t(), P().get_mpz_t()); return true;
  }
  void load(point_save_span_const_type s) { v_ = In(s.data(), 32); }
  void save(point_save_span_type s) const { Out(v_, s.data()); }
  void extract_hash(hash_span_type o) const { unsigned char b[32]; Out(v_, b); std::string s((char*)b, 32); auto h = Sha("h1|" + s) + Sha("h2|" + s); memcpy(o.data(), h.data(), hash_size); }
 private:
  mpz_class v_ = 1;
};
inline constexpr size_t oprf_query_size = ECPoint::save_size, oprf_response_size = ECPoint::save_size, oprf_key_size = ECPoint::order_size, oprf_hash_size = 16;
class OPRFKey {
 public:
  OPRFKey() { ECPoint::MakeRandomNonzeroScalar(k_); }
  ECPoint::scalar_span_const_type key_span() const { return k_; }
  void save(std::ostream& o) const { o.write((const char*)k_.data(), oprf_key_size); }
  void load(std::istream& i) { i.read((char*)k_.data(), oprf_key_size); }
  bool operator==(const OPRFKey& o) const { return k_ == o.k_; }
  bool operator!=(const OPRFKey& o) const { return k_ != o.k_; }
 private:
  ECPoint::scalar_type k_;
};
class OPRFReceiver {
 public:
  explicit OPRFReceiver(const std::vector<Item>& items) : k_(items.size()) {
    for (size_t i = 0; i < items.size(); ++i) {
      ECPoint p(items[i].get_as<const unsigned char>()); ECPoint::scalar_type s; ECPoint::MakeRandomNonzeroScalar(s); ECPoint::InvertScalar(s, k_[i]);
      p.scalar_multiply(s, false); q_.resize(q_.size() + oprf_query_size);
      p.save(ECPoint::point_save_span_type(q_.data() + i * oprf_query_size, oprf_query_size));
    }
  }
  size_t item_count() const { return k_.size(); }
  std::vector<unsigned char> query_data() const { return q_; }
  void process_responses(gsl::span<const unsigned char> in, gsl::span<HashedItem> h, gsl::span<LabelKey> lk) const {
    for (size_t i = 0; i < k_.size(); ++i) {
      ECPoint p; p.load(ECPoint::point_save_span_const_type(in.data() + i * oprf_response_size, oprf_response_size)); p.scalar_multiply(k_[i], false);
      std::array<unsigned char, ECPoint::hash_size> x; p.extract_hash(x);
      memcpy(h[i].value().data(), x.data(), 16); memcpy(lk[i].data(), x.data() + 16, 32);
    }
  }
 private:
  std::vector<ECPoint::scalar_type> k_; std::vector<unsigned char> q_;
};
}  // namespace oprf
// ---- messages ----
namespace network {
enum class SenderOperationType : uint32_t { sop_unknown = 0, sop_parms = 1, sop_oprf = 2, sop_query = 3 };
inline const char* sender_operation_type_str(SenderOperationType t) { static const char* n[] = {"unknown", "parms", "oprf", "query"}; return (uint32_t)t < 4 ? n[(uint32_t)t] : "bad"; }
struct SenderOperationHeader {
  uint32_t version = apsi_serialization_version; SenderOperationType type = SenderOperationType::sop_unknown;
  size_t save(std::ostream& o) const { W w{o}; w.u(version); w.u((uint32_t)type); return w.n; }
  size_t load(std::istream& i) { R r{i}; version = (uint32_t)r.u(); type = (SenderOperationType)r.u(); return r.n; }
};
struct SenderOperation {
  virtual ~SenderOperation() = default;
  virtual SenderOperationType type() const = 0;
  virtual size_t save(std::ostream&) const = 0;
  virtual size_t load(std::istream&, std::shared_ptr<seal::SEALContext> = nullptr) = 0;
};
struct SenderOperationParms : SenderOperation {
  SenderOperationType type() const override { return SenderOperationType::sop_parms; }
  size_t save(std::ostream&) const override { return 0; }
  size_t load(std::istream&, std::shared_ptr<seal::SEALContext>) override { return 0; }
};
struct SenderOperationOPRF : SenderOperation {
  std::vector<unsigned char> data; uint32_t bucket_idx = 0;
  SenderOperationType type() const override { return SenderOperationType::sop_oprf; }
  size_t save(std::ostream& o) const override { W w{o}; w.u(bucket_idx); w.s(std::string(data.begin(), data.end())); return w.n; }
  size_t load(std::istream& i, std::shared_ptr<seal::SEALContext>) override { R r{i}; bucket_idx = r.u(); auto s = r.s(); data.assign(s.begin(), s.end()); return r.n; }
};
struct SenderOperationQuery : SenderOperation {
  seal::RelinKeys relin; seal::compr_mode_type compr = seal::compr_mode_type::none; uint32_t top = 0, bucket_idx = 0;
  std::unordered_map<uint32_t, std::vector<seal::Ciphertext>> data;
  SenderOperationType type() const override { return SenderOperationType::sop_query; }
  size_t save(std::ostream& o) const override {
    W w{o}; w.u(bucket_idx); w.u(relin.id); w.u((uint64_t)compr); w.u(top); w.u(data.size());
    for (auto& [e, v] : data) { w.u(e); w.u(v.size()); for (auto& c : v) { w.u(c.bundle); w.u(c.power); w.u(c.slots.size()); for (auto& s : c.slots) { w.u(s.first); w.s(s.second); } } }
    return w.n;
  }
  size_t load(std::istream& i, std::shared_ptr<seal::SEALContext>) override {
    R r{i}; bucket_idx = r.u(); relin.id = r.u(); compr = (seal::compr_mode_type)r.u(); top = r.u();
    for (auto n = r.u(); n > 0; --n) { auto& v = data[(uint32_t)r.u()]; v.resize(r.u()); for (auto& c : v) { c.bundle = r.u(); c.power = r.u(); c.slots.resize(r.u()); for (auto& s : c.slots) { s.first = r.u(); s.second = r.s(); } } }
    return r.n;
  }
};
struct SenderOperationResponse {
  virtual ~SenderOperationResponse() = default;
  virtual SenderOperationType type() const = 0;
  virtual size_t save(std::ostream&) const = 0;
  virtual size_t load(std::istream&) = 0;
};
struct SenderOperationResponseParms : SenderOperationResponse {
  std::unique_ptr<PSIParams> params;
  SenderOperationType type() const override { return SenderOperationType::sop_parms; }
  size_t save(std::ostream& o) const override { W w{o}; w.s(params ? params->to_string() : ""); return w.n; }
  size_t load(std::istream& i) override { R r{i}; params = std::make_unique<PSIParams>(PSIParams::Load(r.s())); return r.n; }
};
struct SenderOperationResponseOPRF : SenderOperationResponse {
  std::vector<unsigned char> data;
  SenderOperationType type() const override { return SenderOperationType::sop_oprf; }
  size_t save(std::ostream& o) const override { W w{o}; w.s(std::string(data.begin(), data.end())); return w.n; }
  size_t load(std::istream& i) override { R r{i}; auto s = r.s(); data.assign(s.begin(), s.end()); return r.n; }
};
struct SenderOperationResponseQuery : SenderOperationResponse {
  uint32_t package_count = 0;
  SenderOperationType type() const override { return SenderOperationType::sop_query; }
  size_t save(std::ostream& o) const override { W w{o}; w.u(package_count); return w.n; }
  size_t load(std::istream& i) override { R r{i}; package_count = r.u(); return r.n; }
};
struct ResultPackage {
  uint32_t bundle_idx = 0;
  std::vector<std::pair<uint32_t, std::string>> hit;  // place in the table, encrypted label
  bool labelled = false;
  size_t save(std::ostream& o) const { W w{o}; w.u(bundle_idx); w.u(labelled); w.u(hit.size()); for (auto& h : hit) { w.u(h.first); w.s(h.second); } return w.n; }
  size_t load(std::istream& i, std::shared_ptr<seal::SEALContext>) { R r{i}; bundle_idx = r.u(); labelled = r.u(); hit.resize(r.u()); for (auto& h : hit) { h.first = r.u(); h.second = r.s(); } return r.n; }
};
class Channel {
 public:
  virtual ~Channel() = default;
  virtual void send(std::unique_ptr<SenderOperation>) = 0;
  virtual std::unique_ptr<SenderOperation> receive_operation(std::shared_ptr<seal::SEALContext>, SenderOperationType = SenderOperationType::sop_unknown) = 0;
  virtual void send(std::unique_ptr<SenderOperationResponse>) = 0;
  virtual std::unique_ptr<SenderOperationResponse> receive_response(SenderOperationType = SenderOperationType::sop_unknown) = 0;
  virtual void send(std::unique_ptr<ResultPackage>) = 0;
  virtual std::unique_ptr<ResultPackage> receive_result(std::shared_ptr<seal::SEALContext>) = 0;
  uint64_t bytes_sent() const { return bytes_sent_; }
  uint64_t bytes_received() const { return bytes_received_; }
 protected:
  std::atomic<uint64_t> bytes_sent_{0}, bytes_received_{0};
};
class NetworkChannel : public Channel {};
}  // namespace network
using Request = std::unique_ptr<network::SenderOperation>;
using ParamsRequest = std::unique_ptr<network::SenderOperationParms>;
using OPRFRequest = std::unique_ptr<network::SenderOperationOPRF>;
using QueryRequest = std::unique_ptr<network::SenderOperationQuery>;
using Response = std::unique_ptr<network::SenderOperationResponse>;
using OPRFResponse = std::unique_ptr<network::SenderOperationResponseOPRF>;
using QueryResponse = std::unique_ptr<network::SenderOperationResponseQuery>;
using ResultPart = std::unique_ptr<network::ResultPackage>;
template <class To, class From> std::unique_ptr<To> Cast_(std::unique_ptr<From>&& f) {
  if (auto* t = dynamic_cast<To*>(f.get())) { f.release(); return std::unique_ptr<To>(t); }
  return nullptr;
}
using ParamsResponse = std::unique_ptr<network::SenderOperationResponseParms>;
inline ParamsRequest to_params_request(Request&& r) { return Cast_<network::SenderOperationParms>(std::move(r)); }
inline ParamsResponse to_params_response(Response&& r) { return Cast_<network::SenderOperationResponseParms>(std::move(r)); }
inline ParamsResponse to_params_response(Response& r) { return Cast_<network::SenderOperationResponseParms>(std::move(r)); }
inline OPRFRequest to_oprf_request(Request&& r) { return Cast_<network::SenderOperationOPRF>(std::move(r)); }
inline QueryRequest to_query_request(Request&& r) { return Cast_<network::SenderOperationQuery>(std::move(r)); }
inline OPRFResponse to_oprf_response(Response&& r) { return Cast_<network::SenderOperationResponseOPRF>(std::move(r)); }
inline QueryResponse to_query_response(Response&& r) { return Cast_<network::SenderOperationResponseQuery>(std::move(r)); }
inline OPRFResponse to_oprf_response(Response& r) { return Cast_<network::SenderOperationResponseOPRF>(std::move(r)); }
inline QueryResponse to_query_response(Response& r) { return Cast_<network::SenderOperationResponseQuery>(std::move(r)); }
namespace network {
// one that writes into a stream; only what is sent through it is ever used
class StreamChannel : public Channel {
 public:
  explicit StreamChannel(std::stringstream& s) : s_(s) {}
  void send(std::unique_ptr<SenderOperation> o) override { o->save(s_); }
  std::unique_ptr<SenderOperation> receive_operation(std::shared_ptr<seal::SEALContext>, SenderOperationType) override { return nullptr; }
  void send(std::unique_ptr<SenderOperationResponse> o) override { o->save(s_); }
  std::unique_ptr<SenderOperationResponse> receive_response(SenderOperationType) override { return nullptr; }
  void send(std::unique_ptr<ResultPackage> o) override { o->save(s_); }
  std::unique_ptr<ResultPackage> receive_result(std::shared_ptr<seal::SEALContext>) override { return nullptr; }
 private:
  std::stringstream& s_;
};
// never connects
struct ZMQSenderOperation { std::string client_id; std::unique_ptr<SenderOperation> sop; };
struct ZMQSenderOperationResponse { std::string client_id; std::unique_ptr<SenderOperationResponse> sop_response; };
struct ZMQResultPackage { std::string client_id; std::unique_ptr<ResultPackage> rp; };
class ZMQChannel : public NetworkChannel {
 public:
  void connect(const std::string&) {}
  void bind(const std::string&) {}
  bool is_connected() const { return false; }
  void send(std::unique_ptr<SenderOperation>) override {}
  std::unique_ptr<SenderOperation> receive_operation(std::shared_ptr<seal::SEALContext>, SenderOperationType) override { return nullptr; }
  void send(std::unique_ptr<SenderOperationResponse>) override {}
  std::unique_ptr<SenderOperationResponse> receive_response(SenderOperationType) override { return nullptr; }
  void send(std::unique_ptr<ResultPackage>) override {}
  std::unique_ptr<ResultPackage> receive_result(std::shared_ptr<seal::SEALContext>) override { return nullptr; }
  void send(std::unique_ptr<ZMQSenderOperationResponse>) {}
  void send(std::unique_ptr<ZMQResultPackage>) {}
  std::unique_ptr<ZMQSenderOperation> receive_network_operation(std::shared_ptr<seal::SEALContext>) { throw std::logic_error("not connected"); }
};
class ZMQSenderChannel : public ZMQChannel {};
class ZMQReceiverChannel : public ZMQChannel {};
}  // namespace network
// ---- the database ----
namespace sender {
struct BinBundleCache { uint32_t bundle = 0; std::map<std::string, std::string> entry; };  // hash -> encrypted label
class SenderDB {
 public:
  SenderDB(PSIParams p, size_t label_bytes = 0, size_t nonce = 16, bool = true) : p_(p), lb_(label_bytes), nonce_(nonce) {}
  SenderDB(PSIParams p, oprf::OPRFKey k, size_t label_bytes = 0, size_t nonce = 16, bool = true) : p_(p), lb_(label_bytes), nonce_(nonce), key_(k) {}
  SenderDB(SenderDB&& o) : p_(o.p_), lb_(o.lb_), nonce_(o.nonce_), key_(o.key_), stripped_(o.stripped_), n_(o.n_), c_(std::move(o.c_)) {}
  void set_data(const std::vector<std::pair<Item, Label>>& d) {
    clear();
    for (auto& [it, l] : d) {
      if (l.size() > lb_) throw std::invalid_argument("label too long");
      auto [h, lk] = hash(it);
      put(h, XorLabel(std::string(l.begin(), l.end()), lk));
    }
  }
  void set_data(const std::vector<Item>& d) { clear(); for (auto& it : d) put(hash(it).first, ""); }
  size_t get_item_count() const { return n_; }
  oprf::OPRFKey strip() { stripped_ = true; return key_; }
  bool is_stripped() const { return stripped_; }
  oprf::OPRFKey get_oprf_key() const { if (stripped_) throw std::logic_error("stripped"); return key_; }
  size_t get_bin_bundle_count(uint32_t b) const { return c_.at(b).size(); }
  double get_packing_rate() const { return 1; }
  size_t get_bin_bundle_count() const { size_t n = 0; for (auto& b : c_) n += b.size(); return n; }
  std::vector<std::reference_wrapper<const BinBundleCache>> get_cache_at(uint32_t b) const { return {c_.at(b).begin(), c_.at(b).end()}; }
  const PSIParams& get_params() const { return p_; }
  CryptoContext get_crypto_context() const { return {}; }
  std::shared_ptr<seal::SEALContext> get_seal_context() const { return std::make_shared<seal::SEALContext>(); }
  std::shared_lock<std::shared_mutex> get_reader_lock() const { return std::shared_lock<std::shared_mutex>(mu_); }
  bool labelled() const { return lb_ > 0; }
  size_t save(std::ostream& o) const {
    W w{o}; w.u(0x5d5d5d); w.u(p_.bundle_idx_count()); w.u(p_.table_params().max_items_per_bin); w.u(lb_); w.u(n_);
    for (auto& b : c_) { w.u(b.size()); for (auto& c : b) { w.u(c.entry.size()); for (auto& [k, v] : c.entry) { w.s(k); w.s(v); } } }
    return w.n;
  }
  static std::pair<SenderDB, size_t> Load(std::istream& i) {
    R r{i}; if (r.u() != 0x5d5d5d) throw std::runtime_error("not a database");
    auto b = r.u(), m = r.u(); SenderDB d(PSIParams::Load(std::to_string(b) + " " + std::to_string(m)));
    d.lb_ = r.u(); d.n_ = r.u(); d.stripped_ = true; d.c_.resize(b);
    for (uint32_t k = 0; k < b; ++k) { auto n = r.u(); for (uint64_t j = 0; j < n; ++j) { BinBundleCache c; c.bundle = k; for (auto e = r.u(); e > 0; --e) { auto key = r.s(); c.entry[key] = r.s(); } d.c_[k].push_back(c); } }
    return {std::move(d), r.n};
  }
  static uint32_t BundleOf(const std::string& h, uint32_t n) { return (unsigned char)h[0] % n; }
 private:
  void clear() { c_.assign(p_.bundle_idx_count(), {}); n_ = 0; }
  std::pair<std::string, std::string> hash(const Item& it) const {
    oprf::ECPoint p(it.get_as<const unsigned char>()); p.scalar_multiply(key_.key_span(), true);
    std::array<unsigned char, oprf::ECPoint::hash_size> x; p.extract_hash(x);
    return {std::string((char*)x.data(), 16), std::string((char*)x.data() + 16, 32)};
  }
  void put(const std::string& h, std::string l) {
    auto& v = c_[BundleOf(h, p_.bundle_idx_count())];
    for (auto& c : v) if (c.entry.count(h)) { c.entry[h] = std::move(l); return; }
    if (v.empty() || v.back().entry.size() >= p_.table_params().max_items_per_bin) { v.emplace_back(); v.back().bundle = BundleOf(h, p_.bundle_idx_count()); }
    v.back().entry[h] = std::move(l); ++n_;
  }
  PSIParams p_; size_t lb_, nonce_; oprf::OPRFKey key_; bool stripped_ = false; size_t n_ = 0;
  std::vector<std::vector<BinBundleCache>> c_; mutable std::shared_mutex mu_;
};
class Query {
 public:
  Query(QueryRequest q, std::shared_ptr<SenderDB> db) : q_(std::move(q)), db_(std::move(db)) { pd_.top = q_ ? q_->top : 0; }
  explicit operator bool() const { return q_ && db_ && pd_.top == db_->get_params().table_params().max_items_per_bin; }
  const std::unordered_map<uint32_t, std::vector<seal::Ciphertext>>& data() const { return q_->data; }
  seal::RelinKeys relin_keys() const { return q_->relin; }
  PowersDag pd() const { return pd_; }
  seal::compr_mode_type compr_mode() const { return q_->compr; }
  std::shared_ptr<SenderDB> sender_db() const { return db_; }
 private:
  QueryRequest q_; std::shared_ptr<SenderDB> db_; PowersDag pd_;
};
}  // namespace sender
// ---- threads ----
class ThreadPoolMgr {
 public:
  struct Pool { template <class F, class... A> std::future<void> enqueue(F&& f, A&&... a) { return std::async(std::launch::async, std::forward<F>(f), std::forward<A>(a)...); } };
  Pool& thread_pool() { static Pool p; return p; }
  static void SetThreadCount(size_t n) { count() = n ? n : std::thread::hardware_concurrency(); }
  static size_t GetThreadCount() { return count(); }
 private:
  static size_t& count() { static size_t n = 1; return n; }
};
}  // namespace apsi
