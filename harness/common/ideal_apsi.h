// The look-up of APSI itself: an ideal one, for the drivers that run what is built on it (included once per program).
#pragma once
#include <mutex>
#include <set>
#include "psi/wrapper/apsi/receiver.h"
#include "psi/wrapper/apsi/sender.h"
namespace psi::apsi_wrapper {
using apsi::receiver::MatchRecord;
using apsi::receiver::IndexTranslationTable;
Receiver::Receiver(apsi::PSIParams p) : params_(p) { pd_.top = p.table_params().max_items_per_bin; relin_keys_.o.id = 7; }
apsi::oprf::OPRFReceiver Receiver::CreateOPRFReceiver(const std::vector<apsi::Item>& i) { return apsi::oprf::OPRFReceiver(i); }
apsi::Request Receiver::CreateOPRFRequest(const apsi::oprf::OPRFReceiver& r, uint32_t b) {
  auto s = std::make_unique<apsi::network::SenderOperationOPRF>(); s->data = r.query_data(); s->bucket_idx = b; return s;
}
std::pair<std::vector<apsi::HashedItem>, std::vector<apsi::LabelKey>> Receiver::ExtractHashes(const apsi::OPRFResponse& a, const apsi::oprf::OPRFReceiver& r) {
  if (!a || a->data.size() != r.item_count() * apsi::oprf::oprf_response_size) throw std::runtime_error("answer of a wrong size");
  std::vector<apsi::HashedItem> h(r.item_count()); std::vector<apsi::LabelKey> k(r.item_count());
  r.process_responses(a->data, h, k); return {h, k};
}
std::pair<apsi::Request, IndexTranslationTable> Receiver::create_query(const std::vector<apsi::HashedItem>& items, uint32_t b) {
  IndexTranslationTable itt; itt.n = items.size();
  auto q = std::make_unique<apsi::network::SenderOperationQuery>();
  q->bucket_idx = b; q->relin.id = relin_keys_.o.id; q->top = pd_.top;
  auto& v = q->data[1]; v.resize(params_.bundle_idx_count());
  for (uint32_t k = 0; k < v.size(); ++k) { v[k].bundle = k; v[k].power = 1; }
  for (size_t i = 0; i < items.size(); ++i) {
    uint32_t slot = (uint32_t)(items.size() - i) * 3;
    itt.at[slot] = i; auto h = items[i].to_string();
    v[apsi::sender::SenderDB::BundleOf(h, v.size())].slots.push_back({slot, h});
  }
  return {apsi::Request(std::move(q)), itt};
}
std::vector<MatchRecord> Receiver::process_result_part(const std::vector<apsi::LabelKey>& lk, const IndexTranslationTable& itt, const apsi::ResultPart& rp) const {
  std::vector<MatchRecord> r(itt.item_count());
  if (!rp) return r;
  for (auto& [slot, enc] : rp->hit) {
    size_t i = itt.find_item_idx(slot);
    if (i >= itt.item_count()) continue;
    r[i].found = true;
    if (rp->labelled) r[i].label.set(apsi::XorLabel(enc, std::string((const char*)lk[i].data(), lk[i].size())));
  }
  return r;
}
std::vector<MatchRecord> Receiver::process_result(const std::vector<apsi::LabelKey>& lk, const IndexTranslationTable& itt, const std::vector<apsi::ResultPart>& rps) const {
  std::vector<MatchRecord> all(itt.item_count());
  for (auto& rp : rps) { auto m = process_result_part(lk, itt, rp); for (size_t i = 0; i < m.size(); ++i) if (m[i]) all[i] = m[i]; }
  return all;
}
void Receiver::process_result_worker(std::atomic<uint32_t>& n, std::vector<MatchRecord>& mrs, const std::vector<apsi::LabelKey>& lk, const IndexTranslationTable& itt, apsi::network::Channel& chl) const {
  for (;;) {
    uint32_t k = n;
    do { if (!k) return; } while (!n.compare_exchange_strong(k, k - 1));
    auto m = process_result_part(lk, itt, chl.receive_result(get_seal_context()));
    for (size_t i = 0; i < m.size(); ++i) if (m[i]) mrs[i] = m[i];
  }
}
apsi::OPRFResponse Sender::GenerateOPRFResponse(const apsi::OPRFRequest& q, apsi::oprf::OPRFKey key) {
  auto a = std::make_unique<apsi::network::SenderOperationResponseOPRF>(); a->data = q->data;
  for (size_t i = 0; i + 32 <= a->data.size(); i += 32) {
    apsi::oprf::ECPoint p; p.load(apsi::oprf::ECPoint::point_save_span_const_type(a->data.data() + i, 32));
    if (!p.scalar_multiply(key.key_span(), true)) throw std::runtime_error("no point");
    p.save(apsi::oprf::ECPoint::point_save_span_type(a->data.data() + i, 32));
  }
  return a;
}
void Sender::ComputePowers(const std::shared_ptr<apsi::sender::SenderDB>&, const apsi::CryptoContext& c, std::vector<CiphertextPowers>& all, const apsi::PowersDag& pd, uint32_t b, seal::MemoryPoolHandle&) {
  if (!c.relin()) throw std::logic_error("no keys");
  for (uint32_t p = 2; p <= pd.top; ++p) { all.at(b).at(p) = all[b].at(1); all[b][p].power *= p; }
}
void Sender::ProcessBinBundleCache(const std::shared_ptr<apsi::sender::SenderDB>& db, const apsi::CryptoContext& cc, std::reference_wrapper<const apsi::sender::BinBundleCache> cache, std::vector<CiphertextPowers>& all, apsi::network::Channel& chl,
                                   std::function<void(apsi::network::Channel&, apsi::ResultPart)> send, uint32_t b, seal::compr_mode_type, seal::MemoryPoolHandle&, std::mutex& mu, std::vector<apsi::ResultPart>* rps) {
  auto& pw = all.at(b);
  for (uint32_t p = 1; p <= db->get_params().table_params().max_items_per_bin; ++p)
    if (pw.at(p).bundle != (int)b || pw[p].power != (int)p || !cc.relin()) throw std::logic_error("powers of another query");
  auto rp = std::make_unique<apsi::network::ResultPackage>(); rp->bundle_idx = b; rp->labelled = db->labelled();
  for (auto& [slot, h] : pw[1].slots) if (auto i = cache.get().entry.find(h); i != cache.get().entry.end() && cache.get().bundle == b) rp->hit.push_back({slot, i->second});
  std::lock_guard<std::mutex> g(mu);
  if (rps) rps->push_back(std::move(rp)); else send(chl, std::move(rp));
}
apsi::Request Receiver::CreateParamsRequest() { return std::make_unique<apsi::network::SenderOperationParms>(); }
apsi::PSIParams Receiver::RequestParams(apsi::network::NetworkChannel& chl) {
  chl.send(CreateParamsRequest()); auto a = apsi::to_params_response(chl.receive_response());
  if (!a || !a->params) throw std::runtime_error("no parameters");
  return *a->params;
}
std::pair<std::vector<apsi::HashedItem>, std::vector<apsi::LabelKey>> Receiver::RequestOPRF(const std::vector<apsi::Item>& items, apsi::network::NetworkChannel& chl, uint32_t b) {
  auto r = CreateOPRFReceiver(items); chl.send(CreateOPRFRequest(r, b));
  if (items.empty()) return {};
  return ExtractHashes(apsi::to_oprf_response(chl.receive_response()), r);
}
std::vector<MatchRecord> Receiver::request_query(const std::vector<apsi::HashedItem>& items, const std::vector<apsi::LabelKey>& lk, apsi::network::NetworkChannel& chl, bool, uint32_t b) {
  auto q = create_query(items, b); chl.send(std::move(q.first));
  auto a = apsi::to_query_response(chl.receive_response());
  if (!a) throw std::runtime_error("no answer");
  std::vector<apsi::ResultPart> rps;
  for (uint32_t i = 0; i < a->package_count; ++i) rps.push_back(chl.receive_result(get_seal_context()));
  return process_result(lk, q.second, rps);
}
void Sender::RunParams(const apsi::ParamsRequest& q, std::shared_ptr<apsi::sender::SenderDB> db, apsi::network::Channel& chl, std::function<void(apsi::network::Channel&, apsi::Response)> send) {
  if (!q) throw std::invalid_argument("no request");
  if (!db) throw std::logic_error("no database");
  auto a = std::make_unique<apsi::network::SenderOperationResponseParms>(); a->params = std::make_unique<apsi::PSIParams>(db->get_params());
  send(chl, std::move(a));
}
void Sender::RunOPRF(const apsi::OPRFRequest& q, apsi::oprf::OPRFKey key, apsi::network::Channel& chl, std::function<void(apsi::network::Channel&, apsi::Response)> send) {
  if (!q) throw std::invalid_argument("no request");
  auto a = GenerateOPRFResponse(q, key);
  if (!a->data.empty()) send(chl, std::move(a));
}
void Sender::RunQuery(const apsi::sender::Query& q, apsi::network::Channel& chl, bool streaming, std::function<void(apsi::network::Channel&, apsi::Response)> send, std::function<void(apsi::network::Channel&, apsi::ResultPart)> send_rp) {
  if (!q) throw std::invalid_argument("query is invalid");
  auto db = q.sender_db(); apsi::CryptoContext cc(db->get_crypto_context()); cc.set_evaluator(q.relin_keys());
  auto a = std::make_unique<apsi::network::SenderOperationResponseQuery>(); a->package_count = db->get_bin_bundle_count(); send(chl, std::move(a));
  std::vector<CiphertextPowers> all(db->get_params().bundle_idx_count());
  for (auto& p : all) p.resize(db->get_params().table_params().max_items_per_bin + 1);
  for (auto& [e, v] : q.data()) for (size_t b = 0; b < all.size(); ++b) all[b].at(e) = v.at(b);
  seal::MemoryPoolHandle pool; std::mutex mu; std::vector<apsi::ResultPart> rps;
  for (uint32_t b = 0; b < all.size(); ++b) {
    ComputePowers(db, cc, all, q.pd(), b, pool);
    for (auto& c : db->get_cache_at(b)) ProcessBinBundleCache(db, cc, c, all, chl, send_rp, b, q.compr_mode(), pool, mu, streaming ? nullptr : &rps);
  }
  for (auto& rp : rps) send_rp(chl, std::move(rp));
}
}  // namespace psi::apsi_wrapper
