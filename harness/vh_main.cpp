// Driver: runs the registered suites for one shard and writes what was observed.
#include "vh.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
#include <iostream>
#include <mutex>

namespace vh {
std::vector<Suite> &suites() { static std::vector<Suite> s; return s; }
static std::map<std::string, uint64_t> g_events;
static std::unordered_set<uint64_t> g_distinct;
static std::map<std::string, int> g_keys;
static FILE *g_viol = nullptr;
static char *g_label = nullptr;
static std::mutex g_mu;
static uint64_t g_nviol = 0;
static bool g_crash_only = false;  // only sanitizers and aborts judge

static std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}
void Case::viol(const std::string &key, const std::string &detail) {
  std::lock_guard<std::mutex> l(g_mu);
  failed = true;
  if (g_crash_only) { ++g_events["other-verdicts-ignored"]; return; }
  ++g_nviol;
  if (g_keys[suite + "/" + key]++ < 5) {
    fprintf(g_viol, "{\"suite\":\"%s\",\"case\":%llu,\"key\":\"%s\",\"detail\":\"%s\"}\n", suite.c_str(),
            (unsigned long long)index, esc(key).c_str(), esc(detail.substr(0, 3000)).c_str());
    fflush(g_viol);
  }
}
void Case::event(const char *kind, uint64_t n) { std::lock_guard<std::mutex> l(g_mu); g_events[kind] += n; }
void Case::distinct(const std::string &w) {
  std::lock_guard<std::mutex> l(g_mu);
  g_distinct.insert(hash_str(suite + "|" + w));
  if (sample.size() < 400) sample += (sample.empty() ? "" : " ; ") + w.substr(0, 300);
}
void Case::label(const std::string &l) {
  if (g_label) { size_t n = std::min<size_t>(l.size(), 400); memcpy(g_label + 100, l.data(), n); g_label[100 + n] = 0; }
}
}  // namespace vh

int main(int argc, char **argv) {
  std::string out = "result.json", only;
  uint64_t seed = 1; long only_case = -1; int shard = 0, nshards = 1; bool thorough = false; double scale = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--out") out = v; else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--tier") thorough = v == "thorough"; else if (a == "--suite") only = v;
    else if (a == "--case") only_case = atol(v.c_str());
    else if (a == "--crash-only") vh::g_crash_only = v == "1";
    else if (a == "--scale") scale = atof(v.c_str());
    else if (a == "--shard") sscanf(v.c_str(), "%d/%d", &shard, &nshards);
  }
  vh::g_viol = fopen((out + ".viol").c_str(), "w");
  int fd = open((out + ".label").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (!vh::g_viol || fd < 0 || ftruncate(fd, 4096)) { perror("harness"); return 3; }
  vh::g_label = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  uint64_t evals = 0, inconclusive = 0, global = 0;
  std::map<std::string, uint64_t> per, inc_reason;
  std::map<std::string, std::vector<std::string>> samples;
  for (auto &s : vh::suites()) {
    if (!only.empty() && s.name != only) continue;
    uint64_t n = thorough ? s.nt : s.nq;
    if (scale != 1 && n > 4) n = std::max<uint64_t>(4, (uint64_t)(n * scale));
    for (uint64_t k = 0; k < n; ++k, ++global) {
      if (only_case >= 0) { if ((long)k != only_case) continue; }
      else if ((int)(global % nshards) != shard) continue;
      // case 0.. are the same for every seed only through the suite's own enumeration of `index`
      vh::Case c{s.name, k, thorough, vh::Rng(vh::mix(seed * 1000003ull + k) ^ vh::hash_str(s.name)), false, {}};
      snprintf(vh::g_label, 100, "%s#%llu", s.name.c_str(), (unsigned long long)k);
      vh::g_label[100] = 0;
      try {
        s.fn(c);
        ++evals; ++per[s.name];
      } catch (const vh::Inconclusive &e) {
        ++inconclusive; ++inc_reason[e.what()];
      } catch (const std::exception &e) {
        c.viol("unexpected-exception", std::string(e.what()) + " @ " + (vh::g_label + 100));
      } catch (...) {
        c.viol("unexpected-exception", "non-std exception");
      }
      auto &sm = samples[s.name];
      if (sm.size() < 2 && !c.sample.empty()) sm.push_back(vh::cat(s.name, "#", k, ": ", c.sample));
    }
  }
  snprintf(vh::g_label, 100, "exit");
  FILE *f = fopen(out.c_str(), "w");
  if (!f) return 3;
  fprintf(f, "{\"evaluations\":%llu,\"inconclusive\":%llu,\"violations\":%llu,\"distinct\":[", (unsigned long long)evals,
          (unsigned long long)inconclusive, (unsigned long long)vh::g_nviol);
  bool first = true;
  for (auto h : vh::g_distinct) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
  auto dump = [&](const char *name, auto &m) {
    fprintf(f, ",\"%s\":{", name); bool ff = true;
    for (auto &[k, v] : m) { fprintf(f, "%s\"%s\":%llu", ff ? "" : ",", vh::esc(k).c_str(), (unsigned long long)v); ff = false; }
    fprintf(f, "}");
  };
  fprintf(f, "]");
  dump("events", vh::g_events); dump("per_suite", per); dump("inconclusive_reasons", inc_reason);
  fprintf(f, ",\"samples\":["); first = true;
  for (auto &[k, v] : samples) for (auto &s : v) { fprintf(f, "%s\"%s\"", first ? "" : ",", vh::esc(s).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f); fclose(vh::g_viol);
  std::cout.flush();
  return vh::g_nviol ? 1 : 0;
}
