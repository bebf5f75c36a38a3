// The building blocks below the protocols: index files, bucket stores, batch providers, cuckoo
// placement, key tables, the legacy file check, curve arithmetic and message encodings.
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <thread>

#include "psi_env.h"

#include "psi/cryptor/cryptor_selector.h"
#include "psi/utils/arrow_csv_batch_provider.h"
#include "psi/utils/batch_provider_impl.h"
#include "psi/utils/communication.h"
#include "psi/utils/csv_checker.h"
#include "psi/utils/cuckoo_index.h"
#include "psi/utils/hash_bucket_cache.h"
#include "psi/utils/index_store.h"
#include "psi/utils/serialize.h"
#include "psi/utils/table_utils.h"
#include "yacl/link/link.h"

using namespace drv;
using namespace env;
using psi::HashBucketCache;

// runs fn in a child that dies without cleaning up; the events it recorded come back
static void Killed(Case& c, const std::string& evfile, const std::function<void(Case&)>& fn) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    Case k;
    bool thrown = false;
    try { fn(k); } catch (...) { thrown = true; }
    if (thrown) k.add({{"e", "Threw"}});
    std::ofstream(evfile) << k.ev.dump();
    _Exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (!WIFEXITED(st)) { c.add({{"e", "Died"}}); return; }
  for (auto& e : json::parse(Slurp(evfile))) c.add(e);
}

// ---------------------------------------------------------------- index files
static json IdxRead(const std::string& path, int how) {
  psi::FileIndexReader r(path);
  json xs = json::array();
  while (true) {
    if (how == 1 && !r.HasNext()) break;
    if (how == 2) { r.HasNext(); r.HasNext(); }
    auto v = r.GetNextWithPeerCnt();
    if (!v) break;
    xs.push_back({std::to_string(v->first), std::to_string(v->second)});
  }
  return {{"e", "Read"}, {"xs", xs}, {"n", r.read_cnt()}, {"more", r.HasNext()}};
}

static void StoreCase(Runner& rn, unsigned seed) {
  rn.run("store/" + std::to_string(seed), [&](Case& c) {
    Rng g(seed);
    Scratch s(rn.a.tmp);
    std::string path = s / "idx.csv";
    auto rnd = [&]() -> uint64_t {
      switch (R(g, 0, 4)) {
        case 0: return (uint64_t)R(g, 0, 3);
        case 1: return (1ull << 32) + g() % 5;
        case 2: return (1ull << 62) + g();
        default: return g() % 1000000;
      }
    };
    bool big = seed % 17 == 3;
    auto life = [&](Case& k, bool die) {
      bool trunc = R(g, 0, 3) == 0;
      psi::IndexWriter* w = new psi::IndexWriter(path, R(g, 0, 1) ? psi::kIndexWriterCacheSize : R(g, 1, 5), trunc);
      k.add({{"e", "Open"}, {"trunc", trunc}});
      int ops = R(g, 0, 8);
      for (int i = 0; i < ops; ++i) {
        switch (R(g, 0, 4)) {
          case 0: {
            w->Commit();
            k.add({{"e", "Commit"}});
            break;
          }
          default: {
            int how = R(g, 0, 2), n = how == 0 ? 1 : R(g, 0, big ? 3000 : 6);
            std::vector<uint64_t> xi, xc;
            json xs = json::array();
            for (int j = 0; j < n; ++j) {
              xi.push_back(rnd());
              xc.push_back(how == 1 ? 0 : rnd());
              xs.push_back({std::to_string(xi[j]), std::to_string(xc[j])});
            }
            if (how == 0) w->WriteCache(xi[0], xc[0]);
            else if (how == 1) w->WriteCache(xi);
            else w->WriteCache(xi, xc);
            k.add({{"e", "Write"}, {"xs", xs}, {"pend", w->cache_cnt()}});
          }
        }
        if (!die && R(g, 0, 5) == 0) k.add(IdxRead(path, R(g, 0, 2)));
      }
      if (die) { k.add({{"e", "Crash_"}}); return; }
      if (R(g, 0, 1)) w->Close();
      delete w;
      k.add({{"e", "Close"}});
    };
    int lives = R(g, 1, 4);
    for (int i = 0; i < lives; ++i) {
      if (!big && R(g, 0, 2) == 0) Killed(c, s / "ev", [&](Case& k) { life(k, true); });
      else life(c, false);
      g.discard(50);
      if (R(g, 0, 1) || i == lives - 1) c.add(IdxRead(path, R(g, 0, 2)));
    }
    // the same interface over memory
    int n = R(g, 0, 12);
    std::vector<uint32_t> xi, xc;
    json xs = json::array(), ys = json::array();
    std::set<uint32_t> used;
    while ((int)xi.size() < n) {
      uint32_t v = R(g, 0, 40);
      if (!used.insert(v).second) continue;
      xi.push_back(v);
      xc.push_back(R(g, 0, 5));
      xs.push_back({v, xc.back()});
    }
    psi::MemoryIndexReader mr(xi, xc);
    if (R(g, 0, 1)) {
      while (auto v = mr.GetNextWithPeerCnt()) ys.push_back({v->first, v->second});
    } else {
      std::map<uint32_t, uint32_t> by;
      for (int j = 0; j < n; ++j) by[xi[j]] = xc[j];
      while (mr.HasNext()) { auto v = *mr.GetNext(); ys.push_back({v, by[v]}); }
    }
    c.add({{"e", "Mem"}, {"xs", xs}, {"ys", ys}});
  });
}

// ---------------------------------------------------------------- bucket stores
static std::string Item(Rng& g, int kind) {
  switch (kind) {
    case 0: return std::to_string(R(g, 0, 30));
    case 1: { std::string s; int n = R(g, 0, 12); while (n--) s += (char)(g() & 255); return s; }
    case 2: return std::string("a,b\n\"") + std::to_string(R(g, 0, 9)) + std::string(1, '\0') + "z";
    default: return RandWord(g, R(g, 1, 3));
  }
}
static std::string Hex(const std::string& s) {
  static const char* h = "0123456789abcdef";
  std::string o = "x";
  for (unsigned char c : s) { o += h[c >> 4]; o += h[c & 15]; }
  return o;
}
static std::string Unb64(const std::string& b) {
  auto v = [](char ch) { static const std::string t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; return (int)t.find(ch); };
  std::string o;
  int acc = 0, bits = 0;
  for (char ch : b) {
    if (ch == '=') break;
    acc = (acc << 6) | v(ch);
    bits += 6;
    if (bits >= 8) { bits -= 8; o += (char)((acc >> bits) & 255); }
  }
  return o;
}

static json BLoad(HashBucketCache& b, int st, int nb) {
  json bs = json::array();
  for (int k = 0; k < nb; ++k) {
    json xs = json::array();
    for (auto& it : b.LoadBucketItems(k)) xs.push_back({{"i", it.index}, {"d", Hex(Unb64(it.base64_data))}, {"dup", it.extra_dup_cnt}});
    bs.push_back(xs);
  }
  return {{"e", "Load"}, {"st", st}, {"bs", bs}};
}

struct DupProvider : public psi::IBasicBatchProvider {
  std::vector<std::pair<std::string, uint32_t>> xs;
  size_t at = 0, n = 1;
  size_t batch_size() const override { return n; }
  std::vector<std::string> ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    std::vector<std::string> k;
    std::unordered_map<uint32_t, uint32_t> d;
    for (; at < xs.size() && k.size() < n; ++at) {
      if (xs[at].second) d[k.size()] = xs[at].second;
      k.push_back(xs[at].first);
    }
    return {k, d};
  }
};

static void BucketCase(Runner& rn, unsigned seed) {
  rn.run("bucket/" + std::to_string(seed), [&](Case& c) {
    Rng g(seed);
    Scratch s(rn.a.tmp);
    static const int kN[] = {1, 2, 3, 5, 16};
    int nb = kN[R(g, 0, 4)], kind = R(g, 0, 3);
    int stores = R(g, 1, 3);
    for (int st = 1; st <= stores; ++st) {
      std::string dir = s / ("b" + std::to_string(st));
      if (R(g, 0, 3) == 0) nb = kN[R(g, 0, 4)];
      int how = R(g, 0, 3);
      if (how == 0) {          // straight from a provider
        auto p = std::make_shared<DupProvider>();
        p->n = R(g, 1, 7);
        int n = R(g, 0, 40);
        for (int i = 0; i < n; ++i) p->xs.push_back({Item(g, kind), R(g, 0, 2) ? 0 : R(g, 1, 9)});
        auto b = psi::CreateCacheFromProvider(p, dir, nb, R(g, 0, 1));
        c.add({{"e", "New"}, {"n", nb}, {"bn", b->BucketNum()}});
        for (auto& x : p->xs) c.add({{"e", "Put"}, {"st", st}, {"d", Hex(x.first)}, {"dup", x.second}});
        c.add({{"e", "Flush"}, {"st", st}, {"cnt", b->ItemCount()}});
        c.add(BLoad(*b, st, nb));
        continue;
      }
      if (how == 1) {          // straight from a file
        Table t;
        t.cols = {"v", "id"};
        int n = R(g, 1, 40);
        for (int i = 0; i < n; ++i) t.rows.push_back({std::to_string(i), RandWord(g, R(g, 1, 4))});
        WriteCsv(s / "in.csv", t);
        std::vector<std::string> cols = {"id"};
        if (R(g, 0, 1)) cols.push_back("v");
        auto b = psi::CreateCacheFromCsv(s / "in.csv", cols, dir, nb, R(g, 1, 9));
        c.add({{"e", "New"}, {"n", nb}, {"bn", b->BucketNum()}});
        for (auto& r : t.rows) c.add({{"e", "Put"}, {"st", st}, {"d", Hex(cols.size() == 2 ? r[1] + "," + r[0] : r[1])}, {"dup", 0}});
        c.add({{"e", "Flush"}, {"st", st}, {"cnt", b->ItemCount()}});
        c.add(BLoad(*b, st, nb));
        continue;
      }
      bool scoped = R(g, 0, 2) == 0;
      int count = 0, flushed = 0;
      auto put = [&](Case& k, HashBucketCache& b, int n) {
        for (int i = 0; i < n; ++i) {
          std::string d = Item(g, kind);
          uint32_t dup = R(g, 0, 2) ? 0 : R(g, 1, 1 << 30);
          if (dup == 0 && R(g, 0, 1)) b.WriteItem(d); else b.WriteItem(d, dup);
          k.add({{"e", "Put"}, {"st", st}, {"d", Hex(d)}, {"dup", dup}});
          count++;
        }
      };
      auto flush = [&](Case& k, HashBucketCache& b) {
        b.Flush();
        k.add({{"e", "Flush"}, {"st", st}, {"cnt", b.ItemCount()}});
        flushed = count;
      };
      int lives = scoped ? 1 : R(g, 1, 3);
      for (int l = 0; l < lives; ++l) {
        bool die = l < lives - 1;
        auto life = [&](Case& k) {
          auto* b = new HashBucketCache(dir, nb, scoped);
          if (l == 0) k.add({{"e", "New"}, {"n", nb}, {"bn", b->BucketNum()}});
          else {
            int to = R(g, 0, flushed);
            b->Truncate(to);
            k.add({{"e", "Reopen"}, {"st", st}, {"k", to}});
            count = flushed = to;
          }
          int ops = R(g, 1, 4);
          for (int o = 0; o < ops; ++o) {
            put(k, *b, R(g, 0, 9));
            if (R(g, 0, 2)) flush(k, *b);
            if (R(g, 0, 4) == 0 && flushed == count) {
              int to = R(g, 0, count);
              b->Truncate(to);
              k.add({{"e", "Truncate"}, {"st", st}, {"k", to}});
              count = flushed = to;
            }
            if (R(g, 0, 3) == 0 && flushed == count) k.add(BLoad(*b, st, nb));
          }
          if (die) {
            json e = {{"e", "At"}, {"count", count}, {"flushed", flushed}};
            k.add(e);
            return;
          }
          flush(k, *b);
          k.add(BLoad(*b, st, nb));
          delete b;
        };
        if (die) {
          Case k;
          Killed(k, s / "ev", life);
          for (auto& e : k.ev) {
            if (e["e"] == "At") { count = e["count"]; flushed = e["flushed"]; } else c.add(e);
          }
          g.discard(77);
          // the last line a bucket got may be torn
          if (R(g, 0, 1)) {
            std::string line = std::to_string(count + R(g, 0, 2)) + ",0,QUJD";
            std::ofstream f(dir + "/" + std::to_string(R(g, 0, nb - 1)), std::ios::app);
            f << line.substr(0, R(g, 1, (int)line.size()));
          }
        } else life(c);
      }
    }
  });
}

// ---------------------------------------------------------------- batches
static void BatchCase(Runner& rn, unsigned seed) {
  rn.run("batch/" + std::to_string(seed), [&](Case& c) {
    Rng g(seed);
    Scratch s(rn.a.tmp);
    int kind = seed % 9;
    int n = R(g, 0, 7) == 0 ? 0 : R(g, 1, 60);
    static const int kB[] = {1, 2, 3, 7, 16, 64, 1 << 20};
    int bs = kB[R(g, 0, 6)];
    std::vector<std::string> items, labels;
    std::vector<uint32_t> dups;
    json src = json::array();
    auto end = [&] { c.add({{"e", "End"}}); };
    auto shuf = [&](const psi::IShuffledBatchProvider::ShuffledBatch& b, json& order) {
      json xs = json::array();
      for (size_t i = 0; i < b.batch_items.size(); ++i) {
        xs.push_back({{"x", {b.batch_items[i], i < b.dup_cnts.size() ? b.dup_cnts[i] : 0}}, {"bi", b.batch_indices.at(i)}, {"si", b.shuffled_indices.at(i)}});
        order.push_back(b.shuffled_indices[i]);
      }
      c.add({{"e", "Shuf"}, {"xs", xs}});
    };
    if (kind == 0 || kind == 1 || kind == 2) {                       // lists
      for (int i = 0; i < n; ++i) {
        items.push_back(RandWord(g, R(g, 1, 3)));
        labels.push_back("l" + std::to_string(R(g, 0, 9)));
        src.push_back(kind == 1 ? json{items[i], labels[i]} : json{items[i], 0});
      }
      c.in = {{"src", src}, {"n", bs}};
      if (kind == 0) {
        psi::MemoryBatchProvider p(items, bs, labels);
        while (true) {
          json xs = json::array();
          size_t want = bs;
          std::vector<std::string> got;
          if (R(g, 0, 2) == 0) {
            want = R(g, 1, 9);
            for (auto& d : p.ReadNext(want)) got.push_back(d.buf);
          } else got = p.ReadNextBatch();
          for (auto& x : got) xs.push_back({x, 0});
          c.add({{"e", "Read"}, {"xs", xs}, {"n", want}});
          if (got.empty()) break;
        }
        end();
        json xs = json::array();
        for (auto& d : p.ReadAll()) xs.push_back({d.buf, 0});
        c.add({{"e", "Again"}});
        c.add({{"e", "Read"}, {"xs", xs}, {"n", n}});
      } else if (kind == 1) {
        if (n == 0) { items = {"q"}; labels = {"w"}; src = json::array({{"q", "w"}}); c.in["src"] = src; }
        psi::MemoryBatchProvider p(items, bs, labels);
        while (true) {
          auto [a, b] = p.ReadNextLabeledBatch();
          json xs = json::array();
          for (size_t i = 0; i < a.size(); ++i) xs.push_back({a[i], b.at(i)});
          c.add({{"e", "Read"}, {"xs", xs}, {"n", bs}});
          if (a.empty()) break;
        }
        end();
      } else {
        while (items.size() < 24) { items.push_back(RandWord(g, 2)); src.push_back({items.back(), 0}); }
        c.in["src"] = src;
        std::vector<json> orders;
        for (int t = 0; t < 2; ++t) {
          psi::MemoryBatchProvider p(items, bs, labels, true);
          json order = json::array();
          while (true) {
            auto b = p.ReadNextShuffledBatch();
            shuf(b, order);
            if (b.batch_items.empty()) break;
          }
          end();
          if (t == 0) c.add({{"e", "Again"}});
          orders.push_back(order);
        }
        c.add({{"e", "Fresh"}, {"a", orders[0]}, {"b", orders[1]}});
      }
      return;
    }
    if (kind == 3 || kind == 4) {                                    // files
      Table t;
      t.cols = {"a", "b", "c", "d"};
      std::shuffle(t.cols.begin(), t.cols.end(), g);
      std::vector<std::string> names = {"a", "b", "c", "d"};
      std::shuffle(names.begin(), names.end(), g);
      int nk = R(g, 1, 2), nl = kind == 4 ? R(g, 1, 2) : 0;
      std::vector<std::string> kc(names.begin(), names.begin() + nk), lc(names.begin() + nk, names.begin() + nk + nl);
      if (n == 0) n = 1;
      if (seed % 40 == 3) n = 3000;
      for (int i = 0; i < n; ++i) {
        std::map<std::string, std::string> row;
        std::vector<std::string> r;
        for (auto& k : t.cols) { row[k] = R(g, 0, 4) ? RandWord(g, R(g, 1, 3)) : (R(g, 0, 1) ? "007" : "1.50"); r.push_back(row[k]); }
        t.rows.push_back(r);
        std::string key, lab;
        for (auto& k : kc) key += (key.empty() ? "" : ",") + row[k];
        for (auto& k : lc) lab += (lab.empty() ? "" : ",") + row[k];
        src.push_back({key, nl ? json(lab) : json(0)});
      }
      WriteCsv(s / "f.csv", t);
      c.in = {{"src", src}, {"n", bs}};
      psi::ArrowCsvBatchProvider p(s / "f.csv", kc, bs, lc);
      for (int e = 0; e < 2;) {
        json xs = json::array();
        if (nl) {
          auto [a, b] = p.ReadNextLabeledBatch();
          for (size_t i = 0; i < a.size(); ++i) xs.push_back({a[i], b.at(i)});
        } else {
          auto [a, d] = p.ReadNextBatchWithDupCnt();
          for (size_t i = 0; i < a.size(); ++i) xs.push_back({a[i], d.count(i) ? d[i] : 0});
        }
        e += xs.empty();
        c.add({{"e", "Read"}, {"xs", xs}, {"n", bs}});
      }
      end();
      return;
    }
    if (kind == 5 || kind == 6 || kind == 7) {                       // shuffling on the way
      bool many = kind == 7;
      if (n < 24) n = 24 + n;
      int inner = R(g, 1, 2) == 1 ? 1 << 20 : kB[R(g, 3, 5)];
      for (int i = 0; i < n; ++i) {
        items.push_back(RandWord(g, R(g, 1, 3)));
        dups.push_back(kind != 6 && R(g, 0, 2) == 0 ? R(g, 1, 7) : 0);
        src.push_back({items[i], dups[i]});
      }
      if (many && bs > 64) bs = 7;
      c.in = {{"src", src}, {"n", bs}};
      if (kind == 6) {
        Table t;
        t.cols = {"id"};
        for (auto& x : items) t.rows.push_back({x});
        WriteCsv(s / "f.csv", t);
      }
      std::vector<json> orders;
      for (int tt = 0; tt < 2; ++tt) {
        std::shared_ptr<psi::SimpleShuffledBatchProvider> p;
        if (kind == 6) p = std::make_shared<psi::SimpleShuffledBatchProvider>(s / "f.csv", std::vector<std::string>{"id"}, bs);
        else {
          auto d = std::make_shared<DupProvider>();
          d->n = inner;
          for (int i = 0; i < n; ++i) d->xs.push_back({items[i], dups[i]});
          p = std::make_shared<psi::SimpleShuffledBatchProvider>(d, bs);
        }
        json order = json::array();
        if (!many) {
          for (int e = 0; e < 2;) {
            auto b = p->ReadNextShuffledBatch();
            e += b.batch_items.empty();
            shuf(b, order);
          }
        } else {                                                     // several readers at once
          std::vector<std::vector<psi::IShuffledBatchProvider::ShuffledBatch>> got(4);
          std::vector<std::thread> th;
          for (int q = 0; q < 4; ++q) th.emplace_back([&, q] {
            while (true) {
              auto b = p->ReadNextShuffledBatch();
              if (b.batch_items.empty()) break;
              got[q].push_back(std::move(b));
              std::this_thread::yield();
            }
          });
          for (auto& x : th) x.join();
          std::vector<psi::IShuffledBatchProvider::ShuffledBatch*> all;
          for (auto& q : got) for (auto& b : q) all.push_back(&b);
          std::sort(all.begin(), all.end(), [](auto* a, auto* b) { return a->batch_indices.at(0) < b->batch_indices.at(0); });
          for (auto* b : all) shuf(*b, order);
        }
        end();
        if (tt == 0) c.add({{"e", "Again"}});
        orders.push_back(order);
      }
      if (inner >= 24) c.add({{"e", "Fresh"}, {"a", orders[0]}, {"b", orders[1]}});
      return;
    }
    // keys of a table, as the protocols read them
    psi::kBatchSize = R(g, 0, 1) ? 1 << 16 : R(g, 1, 9);
    Table t;
    t.cols = {"id", "v"};
    if (n == 0) n = 1;
    std::map<std::string, int> cnt;
    bool sorted = R(g, 0, 1);
    for (int i = 0; i < n; ++i) {
      std::string k = sorted ? RandWord(g, R(g, 1, 2)) : "k" + std::to_string(i);
      if (sorted && R(g, 0, 2) == 0 && !cnt.empty()) k = cnt.begin()->first;
      t.rows.push_back({k, std::to_string(i)});
      cnt[k]++;
      if (!sorted) src.push_back({k, 0});
    }
    if (sorted) for (auto& [k, v] : cnt) src.push_back({k, v - 1});
    WriteCsv(s / "f.csv", t);
    c.in = {{"src", src}, {"n", bs}};
    std::shared_ptr<psi::KeyInfo> ki;
    if (sorted) ki = psi::KeyInfo::Make(psi::SortedTable::Make(psi::Table::MakeFromCsv(s / "f.csv"), s / "s.csv", {"id"}), s / "k.csv");
    else ki = psi::KeyInfo::Make(psi::UniqueKeyTable::Make(s / "f.csv", "csv", {"id"}));
    auto p = ki->GetKeysProviderWithDupCnt(bs);
    for (int e = 0; e < 2;) {
      auto [a, d] = p->ReadNextBatchWithDupCnt();
      json xs = json::array();
      for (size_t i = 0; i < a.size(); ++i) xs.push_back({a[i], d.count(i) ? d[i] : 0});
      e += xs.empty();
      c.add({{"e", "Read"}, {"xs", xs}, {"n", bs}});
    }
    end();
  });
}

// ---------------------------------------------------------------- cuckoo placement
static void CuckooCase(Runner& rn, unsigned seed, int n, bool selected) {
  rn.run("cuckoo/" + std::to_string(n) + (selected ? "s/" : "/") + std::to_string(seed), [&](Case& c) {
    Rng g(seed);
    psi::CuckooIndex::Options o;
    if (selected) o = psi::CuckooIndex::SelectParams(n, 0, 3);
    else {
      static const double kF[] = {1.0, 1.1, 1.3, 1.5, 2.0, 4.0};
      o = {(uint64_t)n, (uint64_t)R(g, 0, 5), (uint64_t)R(g, 2, 4), kF[R(g, 0, 5)], (uint64_t)(R(g, 0, 2) ? 128 : R(g, 1, 6))};
      if (o.num_stash && n == 1) o.scale_factor = 2.0;
    }
    psi::CuckooIndex ci(o);
    std::vector<uint128_t> codes(n);
    bool poor = !selected && R(g, 0, 3) == 0;
    for (auto& x : codes) {
      uint64_t a = g(), b = g(), d = g(), e = g();
      x = poor ? (uint128_t)(a % 4) * 0x0001000100010001ull : ((uint128_t)((a << 32) | b) << 64) | ((d << 32) | e);
    }
    bool full = false;
    try {
      for (int at = 0; at < n;) {
        int k = R(g, 0, 1) ? n - at : R(g, 1, n - at);
        ci.Insert(absl::MakeSpan(codes.data() + at, k));
        at += k;
      }
    } catch (...) { full = true; }
    if (full) { c.add({{"e", "Full"}, {"selected", selected}}); return; }
    size_t nb = ci.bins().size();
    json h = json::array(), bins = json::array(), stash = json::array(), mn = json::array();
    for (auto& x : codes) {
      json hs = json::array();
      for (size_t k = 0; k < o.num_hash; ++k) hs.push_back(psi::CuckooIndex::HashRoom(x).GetHash(k) % o.NumBins() + 1);
      h.push_back(hs);
    }
    for (size_t b = 0; b < nb; ++b) {
      auto& x = ci.bins()[b];
      if (x.IsEmpty()) { bins.push_back(json::array()); mn.push_back(0); }
      else {
        bins.push_back({x.InputIdx() + 1, x.HashIdx() + 1});
        int m = 0;
        try { m = ci.MinCollidingHashIdx(b) + 1; } catch (...) {}
        mn.push_back(m);
      }
    }
    for (auto& x : ci.stash()) if (!x.IsEmpty()) stash.push_back(x.InputIdx() + 1);
    bool sane = true;
    try { ci.SanityCheck(); } catch (...) { sane = false; }
    c.add({{"e", "Place"}, {"h", h}, {"bins", bins}, {"stash", stash}, {"cap", o.num_stash}, {"min", mn}, {"nb", nb}, {"sane", sane}});
  });
}

// ---------------------------------------------------------------- key tables
static std::string Word(Rng& g, int kind) {
  static const char* kOdd[] = {"0", "00", "10", "9", "-1", "1e3", "a b", " a", "a ", "A", "\xc3\xa9", "z'", "x;y", "#", "NA", "null", "true", "a|b", "$", "~"};
  if (kind == 0) return std::to_string(R(g, 0, 12));
  if (kind == 1) return kOdd[R(g, 0, 19)];
  return RandWord(g, R(g, 1, 2));
}

static void KeysCase(Runner& rn, unsigned seed) {
  rn.run("keys/" + std::to_string(seed), [&](Case& c) {
    Rng g(seed);
    Scratch s(rn.a.tmp);
    int nk = R(g, 1, 3), kind = R(g, 0, 2), tables = R(g, 1, 4);
    using Key = std::vector<std::string>;
    std::vector<std::vector<Key>> ts;
    for (int t = 0; t < tables; ++t) {
      std::vector<Key> rows;
      if (t && R(g, 0, 4)) {
        rows = ts[R(g, 0, t - 1)];
        switch (R(g, 0, 4)) {
          case 0: break;
          case 1: std::shuffle(rows.begin(), rows.end(), g); break;
          case 2: rows[R(g, 0, (int)rows.size() - 1)][R(g, 0, nk - 1)] = Word(g, kind); break;
          case 3: rows.push_back(rows[R(g, 0, (int)rows.size() - 1)]); break;
          default: if (rows.size() > 1) rows.erase(rows.begin() + R(g, 0, (int)rows.size() - 1));
        }
      } else {
        int n = R(g, 1, 14);
        if (seed % 20 == 7 && t == 0) n = 700;
        for (int i = 0; i < n; ++i) {
          Key k;
          for (int j = 0; j < nk; ++j) k.push_back(Word(g, kind));
          rows.push_back(!rows.empty() && R(g, 0, 2) == 0 ? rows[R(g, 0, (int)rows.size() - 1)] : k);
        }
      }
      ts.push_back(rows);
    }
    std::map<Key, int> rank;
    for (auto& t : ts) for (auto& k : t) rank[k] = 0;
    int rk = 0;
    for (auto& [k, v] : rank) v = ++rk;
    std::map<std::string, int> joined;
    for (auto& [k, v] : rank) joined[Join(k)] = v;
    for (int t = 0; t < tables; ++t) {
      psi::kBatchSize = R(g, 0, 2) == 0 ? 1 << 16 : R(g, 1, 6);
      auto& rows = ts[t];
      // columns in any order, with one more in any place
      std::vector<int> pos(nk + 1);
      for (int i = 0; i <= nk; ++i) pos[i] = i;
      std::shuffle(pos.begin(), pos.end(), g);
      std::vector<std::string> names(nk + 1), keys;
      for (int i = 0; i <= nk; ++i) names[i] = "c" + std::to_string(t) + "_" + std::to_string(i);
      for (int j = 0; j < nk; ++j) keys.push_back(names[j]);
      Table f;
      for (int p : pos) f.cols.push_back(names[p]);
      for (size_t i = 0; i < rows.size(); ++i) {
        std::vector<std::string> r;
        for (int p : pos) r.push_back(p == nk ? "r" + std::to_string(i) : rows[i][p]);
        f.rows.push_back(r);
      }
      std::string path = s / ("t" + std::to_string(t) + ".csv");
      WriteCsv(path, f);
      auto lines = [&](const std::string& p) {
        Table x;
        ReadCsv(p, x);
        json o = json::array();
        for (auto& r : x.rows) {
          Key k(nk);
          std::string tag;
          for (size_t i = 0; i < pos.size() && i < r.size(); ++i) if (pos[i] == nk) tag = r[i]; else k[pos[i]] = r[i];
          int row = tag.size() > 1 ? atoi(tag.c_str() + 1) : -1;
          o.push_back({{"k", rank.count(k) ? rank[k] : 0}, {"row", row}});
        }
        if (x.cols != f.cols) o.push_back({{"k", 0}, {"row", -2}});
        return o;
      };
      auto orig = lines(path);
      bool sorted = R(g, 0, 3) != 0;
      std::string kp = s / ("k" + std::to_string(t) + ".csv"), sp = s / ("s" + std::to_string(t) + ".csv");
      auto make = [&](bool first) -> std::shared_ptr<psi::KeyInfo> {
        if (!sorted) return psi::KeyInfo::Make(psi::UniqueKeyTable::Make(path, "csv", keys));
        return psi::KeyInfo::Make(first ? psi::SortedTable::Make(psi::Table::MakeFromCsv(path), sp, keys) : psi::SortedTable::Make(sp, keys), kp);
      };
      int times = R(g, 1, 2);
      for (int m = 0; m < times; ++m) {
        auto ki = make(m == 0);
        if (m == 0) {
          if (sorted) c.add({{"e", "Sort"}, {"t", orig}, {"s", lines(sp)}});
          else c.add({{"e", "Plain"}, {"t", orig}});
        }
        json rec = json::array(), rec2 = json::array();
        auto p = ki->GetBatchProvider(R(g, 0, 1) ? R(g, 1, 5) : 1 << 16);
        while (true) {
          auto b = p->ReadBatchWithInfo();
          if (b.keys.empty()) break;
          for (size_t i = 0; i < b.keys.size(); ++i) rec.push_back({{"k", joined.count(b.keys[i]) ? joined[b.keys[i]] : 0}, {"start", b.start_indexes.at(i)}, {"dup", b.dup_cnts.at(i)}});
        }
        auto q = ki->GetKeysProviderWithDupCnt(R(g, 0, 1) ? R(g, 1, 5) : 1 << 16);
        size_t at = 0;
        while (true) {
          auto [a, d] = q->ReadNextBatchWithDupCnt();
          if (a.empty()) break;
          for (size_t i = 0; i < a.size(); ++i) {
            size_t dup = d.count(i) ? d[i] : 0;
            rec2.push_back({{"k", joined.count(a[i]) ? joined[a[i]] : 0}, {"start", at}, {"dup", dup}});
            at += dup + 1;
          }
        }
        auto h = ki->KeysHash();
        json cnt = {{"e", sorted ? "Keys" : "UKeys"}, {"orig", ki->OriginCnt()}, {"uniq", ki->KeyCnt()}, {"dups", ki->DupKeyCnt()}};
        cnt["rec"] = rec;
        c.add(cnt);
        cnt["rec"] = rec2;
        c.add(cnt);
        c.add({{"e", "Digest"}, {"h", Hex(std::string(h.begin(), h.end()))}, {"sorted", sorted}});
      }
    }
  });
}

// ---------------------------------------------------------------- the legacy file check
static void CsvCase(Runner& rn, unsigned seed) {
  rn.run("csv/" + std::to_string(seed), [&](Case& c) {
    Rng g(seed);
    Scratch s(rn.a.tmp);
    fs::create_directories(s / "cwd");
    fs::current_path(s / "cwd");
    int nk = R(g, 1, 2), files = R(g, 2, 6);
    using Key = std::vector<std::string>;
    std::map<Key, int> id;
    std::vector<std::vector<Key>> ts;
    auto word = [&] { std::string w; int n = R(g, 1, 3); while (n--) w += "ab"[R(g, 0, 1)]; return R(g, 0, 3) ? w : w + (R(g, 0, 1) ? "\xc3\xa9" : " x"); };
    for (int t = 0; t < files; ++t) {
      std::vector<Key> rows;
      if (t && R(g, 0, 4)) {
        rows = ts[R(g, 0, t - 1)];
        int i = R(g, 0, (int)rows.size() - 1), j = R(g, 0, (int)rows.size() - 1);
        switch (R(g, 0, 5)) {
          case 0: std::swap(rows[i], rows[j]); break;
          case 1: rows[i][R(g, 0, nk - 1)] = word(); break;
          case 2:                                    // the same letters, cut elsewhere
            if (i + 1 < (int)rows.size() && rows[i][nk - 1].size() > 1) {
              rows[i + 1][0] = rows[i][nk - 1].back() + rows[i + 1][0];
              rows[i][nk - 1].pop_back();
            }
            break;
          case 3: if (nk == 2 && rows[i][0].size() > 1) { rows[i][1] = rows[i][0].back() + rows[i][1]; rows[i][0].pop_back(); } break;
          case 4: if (rows.size() > 1) rows.pop_back(); break;
          default: break;
        }
      } else {
        int n = R(g, 1, 8);
        std::set<Key> seen;
        for (int i = 0; i < n; ++i) {
          Key k;
          for (int j = 0; j < nk; ++j) k.push_back(word());
          for (auto& w : k) w.erase(std::remove(w.begin(), w.end(), ','), w.end());
          if (R(g, 0, 5) && !seen.insert(k).second) continue;
          rows.push_back(k);
        }
        if (rows.empty()) rows.push_back(Key(nk, "a"));
      }
      ts.push_back(rows);
    }
    for (int t = 0; t < files; ++t) {
      auto rows = ts[t];
      bool bom = R(g, 0, 9) == 0, skip = R(g, 0, 1);
      if (R(g, 0, 7) == 0) rows[R(g, 0, (int)rows.size() - 1)][R(g, 0, nk - 1)] = "";
      std::vector<int> pos(nk + 1);
      for (int i = 0; i <= nk; ++i) pos[i] = i;
      std::shuffle(pos.begin(), pos.end(), g);
      Table f;
      std::vector<std::string> keys;
      for (int p : pos) f.cols.push_back(p == nk ? "val" : "k" + std::to_string(p));
      for (int j = 0; j < nk; ++j) keys.push_back("k" + std::to_string(j));
      json ids = json::array();
      for (size_t i = 0; i < rows.size(); ++i) {
        std::vector<std::string> r;
        bool empty = false;
        for (int p : pos) r.push_back(p == nk ? "v" + std::to_string(i) : rows[i][p]);
        for (auto& w : rows[i]) empty |= w.empty();
        if (empty) ids.push_back(0);
        else { auto it = id.emplace(rows[i], (int)id.size() + 1); ids.push_back(it.first->second); }
        f.rows.push_back(r);
      }
      std::string path = s / ("f" + std::to_string(t) + ".csv");
      {
        std::ofstream o(path);
        if (bom) o << "\xEF\xBB\xBF";
        o << Join(f.cols) << "\n";
        for (auto& r : f.rows) o << Join(r) << "\n";
      }
      json e = {{"e", "Check"}, {"rows", ids}, {"bom", bom}, {"skip", skip}, {"ok", true}, {"cnt", 0}, {"h", ""}};
      try {
        psi::CsvChecker k(path, keys, skip);
        e["cnt"] = k.data_count();
        e["h"] = k.hash_digest();
      } catch (...) { e["ok"] = false; }
      int left = 0;
      for (auto& x : fs::directory_iterator(".")) { (void)x; left++; }
      e["left"] = left;
      c.add(e);
    }
    fs::current_path("/");
  });
}

// ---------------------------------------------------------------- curves
static void CryptCase(Runner& rn, unsigned seed, int curve) {
  rn.run("crypt/" + std::to_string(curve) + "/" + std::to_string(seed), [&](Case& c) {
    Rng g(seed * 31 + curve);
    auto mk = [&](bool fast) {
      setenv("VERIF_AVX512", fast ? "1" : "0", 1);
      auto p = psi::CreateEccCryptor((psi::CurveType)curve);
      setenv("VERIF_AVX512", "0", 1);
      return p;
    };
    std::vector<std::unique_ptr<psi::IEccCryptor>> cs;   // several holders of three keys
    std::vector<int> key;
    for (int i = 0; i < 3; ++i) { cs.push_back(mk(R(g, 0, 1))); key.push_back(i + 1); }
    std::map<std::string, int> name;
    auto N = [&](const std::string& b) { return name.emplace(b, (int)name.size() + 1).first->second; };
    std::set<std::array<uint8_t, 32>> ks;
    for (auto& x : cs) ks.insert(x->GetPrivateKey());
    bool set = true;
    for (int i = 0; i < 3; ++i) {
      auto k = cs[i]->GetPrivateKey();
      cs.push_back(mk(R(g, 0, 1)));
      cs.back()->SetPrivateKey(absl::MakeSpan(k.data(), k.size()));
      key.push_back(i + 1);
      set &= cs.back()->GetPrivateKey() == k && cs.back()->GetCurveType() == cs[0]->GetCurveType();
    }
    std::array<uint8_t, 32> zero{};
    int nin = R(g, 1, 5);
    std::vector<std::string> xs;
    for (int i = 0; i < nin; ++i) xs.push_back(i == 0 ? "" : i == 1 ? std::string(100, 'q') : std::to_string(i) + std::string(1, '\0') + RandWord(g, 2));
    std::vector<yacl::crypto::EcPoint> pts;
    std::vector<int> val;
    bool len = true;
    auto note = [&](psi::IEccCryptor& k, const yacl::crypto::EcPoint& p) {
      auto b = k.SerializeEcPoints({p});
      len &= b[0].size() == k.GetMaskLength();
      return N(b[0]);
    };
    for (int r = 0; r < 2; ++r) {
      auto& k = *cs[R(g, 0, 5)];
      auto ps = k.HashInputs(xs);
      for (int i = 0; i < nin; ++i) {
        int v = note(k, ps[i]);
        c.add({{"e", "Hash"}, {"x", i + 1}, {"v", v}});
        if (r == 0) { pts.push_back(ps[i]); val.push_back(v); }
      }
    }
    int rounds = R(g, 2, 6);
    for (int r = 0; r < rounds; ++r) {
      int ki = R(g, 0, 5);
      auto& k = *cs[ki];
      // a batch of any size, from points seen so far
      int n = R(g, 1, 11);
      std::vector<int> pick;
      std::vector<yacl::crypto::EcPoint> in;
      for (int i = 0; i < n; ++i) { pick.push_back(R(g, 0, (int)pts.size() - 1)); in.push_back(pts[pick[i]]); }
      auto ss = k.SerializeEcPoints(in);
      auto back = k.DeserializeEcPoints(ss);
      auto again = k.SerializeEcPoints(back);
      for (int i = 0; i < n; ++i) c.add({{"e", "Same"}, {"v", val[pick[i]]}, {"w", N(again.at(i))}});
      auto out = k.EccMask(R(g, 0, 1) ? back : in);
      for (int i = 0; i < n; ++i) {
        int w = note(k, out.at(i));
        c.add({{"e", "Mask"}, {"k", key[ki]}, {"v", val[pick[i]]}, {"w", w}});
        if (pts.size() < 40) { pts.push_back(out[i]); val.push_back(w); }
      }
    }
    c.add({{"e", "Key"}, {"fresh", ks.size() == 3 && !ks.count(zero)}, {"set", set}, {"len", len}});
  });
}

// ---------------------------------------------------------------- messages
static void CodecCase(Runner& rn, unsigned seed) {
  rn.run("codec/" + std::to_string(seed), [&](Case& c) {
    Rng g(seed);
    auto msg = [&](const char* kind, json put, json got) { c.add({{"e", "Msg"}, {"kind", kind}, {"put", put}, {"got", got}}); };
    auto bytes = [&](int mx) { std::string s; int n = R(g, 0, mx); while (n--) s += (char)(g() & 255); return s; };
    auto u32 = [&]() -> uint32_t { return R(g, 0, 2) ? R(g, 0, 300) : (uint32_t)g(); };
    auto u64 = [&]() -> uint64_t { return R(g, 0, 2) ? R(g, 0, 300) : ((uint64_t)g() << 32) | g(); };
    auto S = [](auto v) { return std::to_string(v); };
    for (int it = 0; it < 4; ++it) {
      psi::PsiDataBatch b, d;
      b.item_num = u32();
      b.flatten_bytes = bytes(80);
      b.batch_index = R(g, 0, 3) ? R(g, 0, 5) : (int)(g() >> 1);
      b.is_last_batch = R(g, 0, 1);
      b.type = R(g, 0, 1) ? "enc" : R(g, 0, 1) ? "dual.enc" : "";
      int nd = R(g, 0, 4);
      for (int i = 0; i < nd; ++i) b.duplicate_item_cnt[u32()] = u32();
      d = psi::PsiDataBatch::Deserialize(b.Serialize());
      auto J = [&](psi::PsiDataBatch& x) {
        json dc = json::array();
        for (auto& [k, v] : std::map<uint32_t, uint32_t>(x.duplicate_item_cnt.begin(), x.duplicate_item_cnt.end())) dc.push_back({S(k), S(v)});
        return json{S(x.item_num), Hex(x.flatten_bytes), S(x.batch_index), x.is_last_batch, x.type, dc};
      };
      msg("batch", J(b), J(d));
      size_t n = u64();
      msg("size", S(n), S(psi::utils::DeserializeSize(psi::utils::SerializeSize(n))));
      std::vector<uint64_t> i64;
      std::vector<uint32_t> i32;
      int m = R(g, 0, 6);
      for (int i = 0; i < m; ++i) { i64.push_back(u64()); i32.push_back(u32()); }
      auto L = [&](auto& v) { json o = json::array(); for (auto x : v) o.push_back(S(x)); return o; };
      auto o64 = psi::utils::DeserializeIndexes<uint64_t>(psi::utils::SerializeIndexes(i64));
      auto o32 = psi::utils::DeserializeIndexes<uint32_t>(psi::utils::SerializeIndexes(i32));
      msg("indexes", {L(i64), L(i32)}, {L(o64), L(o32)});
      std::vector<std::string> it2, ot;
      std::unordered_map<psi::ItemIndexType, psi::ItemCntType> dc, oc;
      for (int i = 0; i < m; ++i) it2.push_back(R(g, 0, 1) ? RandWord(g, R(g, 0, 5)) : bytes(6));
      int k2 = R(g, 0, 4);
      for (int i = 0; i < k2; ++i) dc[u64()] = u32();
      auto M = [&](auto& x) { json o = json::array(); for (auto& [k, v] : std::map<uint64_t, uint64_t>(x.begin(), x.end())) o.push_back({S(k), S(v)}); return o; };
      auto H = [&](auto& x) { json o = json::array(); for (auto& v : x) o.push_back(Hex(v)); return o; };
      auto buf = psi::utils::SerializeStrItems(it2, dc);
      psi::utils::DeserializeStrItems(buf, &ot, &oc);
      msg("items", {H(it2), M(dc)}, {H(ot), M(oc)});
      auto oc2 = psi::utils::DeserializeItemsCnt(psi::utils::SerializeItemsCnt(dc));
      msg("counts", M(dc), M(oc2));
    }
  });
}

static void LinkCase(Runner& rn, unsigned seed) {
  rn.run("p2p/" + std::to_string(seed), [&](Case& c) {
    Rng g(seed);
    int n = R(g, 2, 4);
    auto hub = std::make_shared<verif::Hub>(n);
    std::vector<size_t> group;
    std::vector<std::string> who = {"dave", "bob", "alice", "carol"};
    who.resize(n);
    for (int i = 0; i < n; ++i) group.push_back(i);
    std::vector<std::shared_ptr<yacl::link::Context>> links;
    for (int i = 0; i < n; ++i) links.push_back(std::make_shared<yacl::link::Context>(hub, "w", group, i, who));
    std::vector<std::string> pre = {"p", "q"};
    // what each party sends to each other on each named channel
    std::map<std::tuple<int, int, int>, std::vector<std::string>> plan;
    int total = R(g, 1, 14), num = 0;
    for (int i = 0; i < total; ++i) {
      int a = R(g, 0, n - 1), b = R(g, 0, n - 2);
      if (b >= a) b++;
      plan[{a, b, n > 2 ? R(g, 0, 1) : 0}].push_back("m" + std::to_string(num++));
    }
    std::vector<json> sends(n), recvs(n);
    std::vector<std::thread> th;
    for (int me = 0; me < n; ++me)
      th.emplace_back([&, me] {
        sends[me] = recvs[me] = json::array();
        try {
          std::map<std::pair<int, int>, std::shared_ptr<yacl::link::Context>> ch;
          for (int q = 0; q < 2; ++q)
            for (int p = 0; p < n; ++p) {
              bool use = plan.count({me, p, q}) || plan.count({p, me, q});
              if (p != me && use) ch[{p, q}] = psi::CreateP2PLinkCtx(pre[q], links[me], p);
            }
          for (auto& [k, v] : plan) {
            auto [a, b, q] = k;
            if (a != me) continue;
            auto& l = ch[{b, q}];
            for (auto& m : v) {
              size_t to = n > 2 ? l->NextRank() : b;
              l->SendAsync(to, m, "t");
              sends[me].push_back({{"e", "Send"}, {"ch", {a, b, q}}, {"v", m}});
            }
          }
          for (auto& [k, v] : plan) {
            auto [a, b, q] = k;
            if (b != me) continue;
            auto& l = ch[{a, q}];
            for (size_t i = 0; i < v.size(); ++i) {
              size_t from = n > 2 ? l->NextRank() : a;
              auto buf = l->Recv(from, "t");
              recvs[me].push_back({{"e", "Recv"}, {"ch", {a, b, q}}, {"v", std::string((const char*)buf.data(), buf.size())}});
            }
          }
        } catch (const std::exception& e) { recvs[me].push_back({{"e", "Lost"}}); }
      });
    for (auto& x : th) x.join();
    for (auto& x : sends) for (auto& e : x) c.add(e);
    for (auto& x : recvs) for (auto& e : x) c.add(e);
    c.add({{"e", "Empty"}});
  });
}

int main(int argc, char** argv) {
  auto a = Parse(argc, argv);
  Runner r(a);
  bool th = a.thorough;
  auto seeds = [&](int quick, int thorough, const std::function<void(unsigned)>& f) {
    for (int i = 0; i < (th ? thorough : quick); ++i) f(a.seed * 100003u + i);
  };
  if (a.mode == "store") seeds(800, 9000, [&](unsigned s) { StoreCase(r, s); });
  if (a.mode == "bucket") seeds(900, 9000, [&](unsigned s) { BucketCase(r, s); });
  if (a.mode == "batches") seeds(900, 9000, [&](unsigned s) { BatchCase(r, s); });
  if (a.mode == "cuckoo") {
    seeds(300, 4000, [&](unsigned s) { CuckooCase(r, s, 1 + (int)(s % 97) % 40, false); });
    seeds(100, 1000, [&](unsigned s) { CuckooCase(r, s, 1 + (int)(s % 131), true); });
    for (int n : {200, 255, 256, 257, 400}) CuckooCase(r, a.seed + n, n, true);
    if (th) for (int n = 300; n < 2000; n += 170) CuckooCase(r, a.seed + n, n, true);
  }
  if (a.mode == "keys") seeds(350, 4000, [&](unsigned s) { KeysCase(r, s); });
  if (a.mode == "csv") seeds(600, 5000, [&](unsigned s) { CsvCase(r, s); });
  if (a.mode == "crypt") seeds(80, 800, [&](unsigned s) { for (int k = 1; k <= 5; ++k) CryptCase(r, s, k); });
  if (a.mode == "codec") {
    seeds(500, 4000, [&](unsigned s) { CodecCase(r, s); });
    seeds(200, 2000, [&](unsigned s) { LinkCase(r, s); });
  }
  r.finish();
}
