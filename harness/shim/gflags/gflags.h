#pragma once
// String flags, as far as the launcher uses them.
#include <cstring>
#include <map>
#include <string>
namespace gflags {
inline std::map<std::string, std::string*>& Flags_() { static std::map<std::string, std::string*> m; return m; }
struct Reg_ { Reg_(const char* n, std::string* p) { Flags_()[n] = p; } };
inline void SetVersionString(const std::string&) {}
inline void AllowCommandLineReparsing() {}
inline uint32_t ParseCommandLineFlags(int* argc, char*** argv, bool) {
  for (int i = 1; i < *argc; ++i) {
    std::string a = (*argv)[i];
    while (!a.empty() && a[0] == '-') a.erase(0, 1);
    size_t e = a.find('=');
    std::string n = a.substr(0, e);
    auto it = Flags_().find(n);
    if (it == Flags_().end()) continue;
    if (e != std::string::npos) *it->second = a.substr(e + 1);
    else if (i + 1 < *argc) *it->second = (*argv)[++i];
  }
  return 1;
}
}  // namespace gflags
#define DEFINE_string(n, d, h) std::string FLAGS_##n = d; static gflags::Reg_ flag_reg_##n(#n, &FLAGS_##n)
