// Runs every party of a protocol as its own process (fork), connected through this process, which routes and records
// every message. A party can be made to die at a chosen step of its own execution.
#pragma once
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <nlohmann/json.hpp>
#include "yacl/link/context.h"

namespace verif {
using json = nlohmann::json;
// step counter of the party living in this process (0 in the parent)
inline std::atomic<long> g_step{0};
inline std::atomic<long> g_crash_at{-1};
inline std::atomic<bool> g_step_on{false};
inline std::atomic<int> g_rank{-1};
inline void Step(const char*) {
  if (!g_step_on) return;
  long s = ++g_step;
  if (s == g_crash_at) _exit(77);
}
// counts and possibly stops at file-system effects (set by iocrash.cc when linked in)
struct Frame {
  char type = 0;  // D data, A ack, C closed, F finished
  uint32_t src = 0, dst = 0;
  std::string ctx, tag, bytes;
};
inline bool WriteAll(int fd, const char* p, size_t n) {
  while (n) {
    ssize_t k = ::send(fd, p, n, MSG_NOSIGNAL);
    if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
    p += k; n -= k;
  }
  return true;
}
inline std::string Pack(const Frame& f) {
  std::string s;
  auto u32 = [&](uint32_t v) { s.append((const char*)&v, 4); };
  s.push_back(f.type); u32(f.src); u32(f.dst);
  u32(f.ctx.size()); u32(f.tag.size()); u32(f.bytes.size());
  s += f.ctx; s += f.tag; s += f.bytes;
  return s;
}
// takes one whole frame off the front of `b`
inline bool Unpack(std::string& b, Frame& f) {
  if (b.size() < 21) return false;
  uint32_t v[5];
  memcpy(v, b.data() + 1, 20);
  size_t n = 21ull + v[2] + v[3] + v[4];
  if (b.size() < n) return false;
  f.type = b[0]; f.src = v[0]; f.dst = v[1];
  f.ctx = b.substr(21, v[2]); f.tag = b.substr(21 + v[2], v[3]); f.bytes = b.substr(21 + v[2] + v[3], v[4]);
  b.erase(0, n);
  return true;
}

class ProcHub : public Hub {
 public:
  ProcHub(size_t n, int fd) : Hub(n), fd_(fd) {
    std::thread([this] {
      std::string buf; char tmp[65536];
      for (;;) {
        ssize_t k = ::recv(fd_, tmp, sizeof tmp, 0);
        if (k <= 0) { for (size_t i = 0; i < n_; ++i) Hub::Close(i); return; }
        buf.append(tmp, k);
        Frame f;
        while (Unpack(buf, f)) {
          if (f.type == 'D') Hub::Put({f.ctx, f.src, f.dst}, std::move(f.bytes));
          else if (f.type == 'A') Hub::Acked({f.ctx, f.src, f.dst});
          else if (f.type == 'C') Hub::Close(f.src);
        }
      }
    }).detach();
  }
  void Put(const Key& k, std::string bytes) override {
    Send({'D', (uint32_t)std::get<1>(k), (uint32_t)std::get<2>(k), std::get<0>(k), "", std::move(bytes)});
  }
  void Acked(const Key& k) override { Send({'A', (uint32_t)std::get<1>(k), (uint32_t)std::get<2>(k), std::get<0>(k), "", ""}); }
  void Send(const Frame& f) {
    std::string s = Pack(f);
    std::lock_guard<std::mutex> g(wmu_);
    WriteAll(fd_, s.data(), s.size());
  }
 private:
  int fd_;
  std::mutex wmu_;
};

struct Party {
  std::function<json(std::shared_ptr<yacl::link::Context>)> fn;
  long crash_at = -1;  // die at this step
};
struct NetResult {
  std::vector<json> res;      // per rank: {"st": "ok"/"err"/"crash"/"dead"/"hang", "err":, "v": fn's value, "steps":}
  long frames = 0;            // data messages forwarded
  std::vector<WireMsg> log;   // every message, in the order the network saw it
};
struct NetOpt {
  int timeout_ms = 40000;
  int recv_timeout_ms = 20000;
  bool record = true;
  size_t window = 10;
  std::vector<std::string> names;
  std::function<void(Frame&)> tamper;
  // delivery schedule: called before a data frame is forwarded; may sleep
  std::function<void(const Frame&)> delay;
  // the network breaks down for good after this many data messages
  long cut_after = -1;
};

inline NetResult RunNet(const std::vector<Party>& ps, NetOpt opt = {}) {
  size_t n = ps.size();
  NetResult R;
  R.res.assign(n, json{{"st", "dead"}});
  std::vector<int> fd(n, -1);
  std::vector<pid_t> pid(n, -1);
  fflush(stdout);
  for (size_t i = 0; i < n; ++i) {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); _exit(3); }
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) {
      close(sv[0]);
      for (size_t j = 0; j < i; ++j) close(fd[j]);
      g_rank = (int)i;
      auto hub = std::make_shared<ProcHub>(n, sv[1]);
      hub->default_timeout_ms = opt.recv_timeout_ms;
      std::vector<size_t> grp;
      for (size_t j = 0; j < n; ++j) grp.push_back(j);
      json v;
      v["st"] = "ok";
      g_crash_at = ps[i].crash_at;
      hub->hook = [](size_t, const char* w, const std::string&) { Step(w); };
      try {
        auto ctx = std::make_shared<yacl::link::Context>(hub, "root", grp, i, opt.names);
        ctx->SetThrottleWindowSize(opt.window);
        g_step_on = true;
        v["v"] = ps[i].fn(ctx);
        g_step_on = false;
      } catch (const std::exception& e) {
        g_step_on = false;
        v["st"] = "err";
        v["err"] = std::string(e.what()).substr(0, 160);
        if (getenv("VERIF_DEBUG")) fprintf(stderr, "rank %zu: %s\n", i, e.what());
      }
      v["steps"] = g_step.load();
      hub->Send({'F', (uint32_t)i, 0, "", "", v.dump(-1, ' ', true, json::error_handler_t::replace)});
      _exit(0);
    }
    close(sv[1]);
    fd[i] = sv[0];
    pid[i] = p;
  }
  std::vector<std::string> buf(n);
  std::vector<bool> open(n, true), fin(n, false);
  auto forward = [&](size_t dst, const Frame& f) {
    if (dst < n && open[dst]) { std::string s = Pack(f); WriteAll(fd[dst], s.data(), s.size()); }
  };
  auto closed = [&](size_t i) {
    for (size_t j = 0; j < n; ++j) if (j != i) forward(j, {'C', (uint32_t)i, 0, "", "", ""});
  };
  auto t_end = std::chrono::steady_clock::now() + std::chrono::milliseconds(opt.timeout_ms);
  bool hang = false, cut = false;
  long seen = 0;
  while (true) {
    std::vector<pollfd> pf;
    std::vector<size_t> who;
    for (size_t i = 0; i < n; ++i) if (open[i]) { pf.push_back({fd[i], POLLIN, 0}); who.push_back(i); }
    if (pf.empty()) break;
    int k = poll(pf.data(), pf.size(), 200);
    if (std::chrono::steady_clock::now() > t_end) { hang = true; break; }
    if (k <= 0) continue;
    for (size_t x = 0; x < pf.size(); ++x) {
      if (!pf[x].revents) continue;
      size_t i = who[x];
      char tmp[65536];
      ssize_t r = recv(fd[i], tmp, sizeof tmp, 0);
      if (r <= 0) {
        open[i] = false;
        if (!fin[i]) closed(i);
        continue;
      }
      buf[i].append(tmp, r);
      Frame f;
      while (Unpack(buf[i], f)) {
        if (f.type == 'D') {
          if (!cut && opt.cut_after >= 0 && seen++ >= opt.cut_after) {
            cut = true;
            for (size_t j = 0; j < n; ++j) closed(j);
          }
          if (cut) continue;
          if (opt.tamper) opt.tamper(f);
          if (opt.delay) opt.delay(f);
          ++R.frames;
          forward(f.dst, f);
          if (opt.record) R.log.push_back({f.src, f.dst, f.ctx, f.tag, std::move(f.bytes)});
        } else if (f.type == 'A') forward(f.src, f);
        else if (f.type == 'F') {
          fin[i] = true;
          R.res[i] = json::parse(f.bytes);
          closed(i);
        }
      }
    }
  }
  for (size_t i = 0; i < n; ++i) {
    if (hang && !fin[i]) R.res[i] = json{{"st", "hang"}};
    if (hang) kill(pid[i], SIGKILL);
    int st = 0;
    waitpid(pid[i], &st, 0);
    close(fd[i]);
    if (!fin[i] && !hang) {
      if (WIFEXITED(st) && WEXITSTATUS(st) == 77) R.res[i] = json{{"st", "crash"}};
      else R.res[i] = json{{"st", "dead"}, {"rc", st}};
    }
  }
  return R;
}
}  // namespace verif
