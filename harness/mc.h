// Small explicit-state exploration runtime shared by all harnesses.
//
// A harness enumerates *units* (independent pieces of the bounded space, claimed
// dynamically by the worker processes so that together they cover every unit
// exactly once) and, inside a unit, *traces* identified by a stable key.  Each
// trace drives the real library through one or more transitions in lock step
// with a reference model; distinct states are counted by hash.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct CurBlock {                       // shared with the driver through a file
  std::atomic<uint64_t> beat;           // advances with every trace
  char unit[256];
  char key[768];
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

struct Run {
  bool thorough = false;
  std::string only_unit, only_case;
  bool only = false;
  std::set<std::string> skip;
  std::string out;
  CurBlock* cur = nullptr;
  std::atomic<uint8_t>* claims = nullptr;
  size_t claim_n = 0, unit_idx = 0;
  uint64_t transitions = 0, traces = 0, units = 0, viols = 0, inexact = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  std::string cur_unit, cur_case;
  bool case_failed = false;
  uint64_t max_viols = 12;

  Run(int argc, char** argv) {
    std::string curf, claimf;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--tier") thorough = (next() == "thorough");
      else if (a == "--out") out = next();
      else if (a == "--cur") curf = next();
      else if (a == "--claims") claimf = next();
      else if (a == "--skip") {
        FILE* f = fopen(next().c_str(), "r");
        if (f) { char b[2048]; while (fgets(b, sizeof b, f)) { std::string s(b); while (!s.empty() && s.back() == '\n') s.pop_back(); skip.insert(s); } fclose(f); }
      }
      else if (a == "--only") {
        std::string k = next(); only = true;
        size_t p = k.find('#');
        only_unit = k.substr(0, p); only_case = (p == std::string::npos) ? "" : k.substr(p + 1);
      }
    }
    static CurBlock dummy;
    cur = &dummy;
    if (!curf.empty()) {
      int fd = open(curf.c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0 && ftruncate(fd, sizeof(CurBlock)) == 0) {
        void* p = mmap(nullptr, sizeof(CurBlock), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) cur = static_cast<CurBlock*>(p);
      }
    }
    if (!claimf.empty()) {
      claim_n = 1 << 20;
      int fd = open(claimf.c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0 && ftruncate(fd, claim_n) == 0) {
        void* p = mmap(nullptr, claim_n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) claims = static_cast<std::atomic<uint8_t>*>(p);
      }
    }
  }

  // Claim a unit. Every unit is explored by exactly one worker.
  bool unit(const std::string& name) {
    cur_unit = name;
    size_t idx = unit_idx++;
    if (only) { bool y = (name == only_unit); if (y) ++units; setcur(name, ""); return y; }
    if (claims) {
      if (idx >= claim_n) { fprintf(stderr, "too many units\n"); _exit(3); }
      uint8_t z = 0;
      if (!claims[idx].compare_exchange_strong(z, 1)) return false;
    }
    ++units; setcur(name, "");
    return true;
  }
  void setcur(const std::string& u, const std::string& k) {
    snprintf(cur->unit, sizeof cur->unit, "%s", u.c_str());
    snprintf(cur->key, sizeof cur->key, "%s", k.c_str());
    cur->beat.fetch_add(1);
  }
  // Start a trace. False: not to be run (replay of another trace, or a listed crash).
  bool begin(const std::string& key) {
    case_failed = false;
    cur_case = key;
    if (only && !only_case.empty() && key != only_case) return false;
    if (!skip.empty() && skip.count(cur_unit + "#" + key)) return false;
    snprintf(cur->key, sizeof cur->key, "%s", key.c_str());
    cur->beat.fetch_add(1, std::memory_order_relaxed);
    ++traces;
    return true;
  }
  // As begin, for traces that must be executed even when only another one is reported.
  bool reporting() const { return !only || only_case.empty() || cur_case == only_case; }
  void step(uint64_t n = 1) { transitions += n; }
  void state(const std::string& s) { states.insert(fnv(s)); }
  void state(uint64_t h) { states.insert(h); }
  void count(const std::string& c, uint64_t n = 1) { counters[c] += n; }
  void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }

  void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (case_failed || !reporting()) return;
    case_failed = true;
    char buf[6000];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char* p = buf; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
    FILE* f = out.empty() ? stdout : fopen((out + ".viol").c_str(), "a");
    fprintf(f, "VIOL\t%s#%s\t%s\n", cur_unit.c_str(), cur_case.c_str(), buf);
    if (f != stdout) fclose(f); else fflush(f);
    if (++viols >= max_viols && !getenv("VERIF_NOLIMIT")) { finish(true); _exit(0); }
  }

  static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
  }
  int finish(bool truncated = false) {
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    fprintf(f, "{\"units\":%llu,\"states\":%zu,\"transitions\":%llu,\"traces\":%llu,\"violations\":%llu,\"truncated\":%s,\"cpu\":%.2f,\"counters\":{",
            (unsigned long long)units, states.size(), (unsigned long long)transitions, (unsigned long long)traces, (unsigned long long)viols, truncated ? "true" : "false",
            ru.ru_utime.tv_sec + ru.ru_utime.tv_usec * 1e-6);
    bool first = true;
    for (auto& c : counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    if (!out.empty()) {                      // state hashes: the driver counts the union
      FILE* g = fopen((out + ".st").c_str(), "wb");
      for (uint64_t h : states) fwrite(&h, 8, 1, g);
      fclose(g);
    }
    return 0;
  }
};

inline std::string S(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string S(const char* fmt, ...) {
  char buf[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  return buf;
}

} // namespace mc
#endif
