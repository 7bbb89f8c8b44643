// Bookkeeping of an enumeration harness: <mode> <tier> <shard> <nshards> <out> [--case ID]
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

struct Report {
  std::string mode, tier, out, only; int shard = 0, nshards = 1; bool single = false;
  std::map<std::string, long long> n; std::vector<std::string> samples; long long index = 0;
  struct V { std::string id, key, msg; }; std::vector<V> viol; std::string id; char * cur = nullptr;
  size_t max_samples = 3; bool exhaustive = true;

  Report(int argc, char ** argv) {
    if (argc < 6) { fprintf(stderr, "usage: mode tier shard nshards out [--case ID]\n"); exit(3); }
    mode = argv[1]; tier = argv[2]; shard = atoi(argv[3]); nshards = atoi(argv[4]); out = argv[5];
    if (argc > 7 && !strcmp(argv[6], "--case")) { only = argv[7]; single = true; }
    int fd = open((out + ".case").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 4096)) { perror("report"); exit(3); }
    cur = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    if (cur == MAP_FAILED) { perror("mmap"); exit(3); }
  }
  bool thorough() const { return tier == "thorough"; }
  // start of a case; false: this shard leaves it out
  bool begin(const std::string & id_) {
    long long i = index++;
    if (single ? id_ != only : (nshards > 1 && i % nshards != shard)) return false;
    set(id_); return true;
  }
  void set(const std::string & id_) { id = id_; size_t l = std::min<size_t>(4095, id.size()); memcpy(cur, id.c_str(), l); cur[l] = 0; }
  void eval(long long k = 1) { n["evaluations"] += k; }
  void nontrivial(long long k = 1) { n["distinct_nontrivial"] += k; }
  void count(const std::string & what, long long k = 1) { n[what] += k; }
  void sample(const std::string & s) { if (samples.size() < max_samples && (index % 3 == 1 || samples.empty())) samples.push_back(s); }
  void violation(const std::string & msg, const std::string & key = "") {
    if (viol.size() < 40) viol.push_back({id, key.empty() ? id : key, "case " + id + ": " + msg});
  }
  bool check(bool c, const std::string & msg) { if (!c) violation(msg); return c; }
  static std::string esc(const std::string & s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
  }
  int finish() {
    FILE * f = fopen((out + ".json.tmp").c_str(), "w"); if (!f) { perror("report"); return 3; }
    fprintf(f, "{\"coverage\":{"); for (auto & x : n) fprintf(f, "%s:%lld,", esc(x.first).c_str(), x.second);
    fprintf(f, "\"exhaustive\":%s,\"samples\":[", exhaustive ? "true" : "false");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", esc(samples[i]).c_str());
    fprintf(f, "]},\"violations\":[");
    for (size_t i = 0; i < viol.size(); ++i) fprintf(f, "%s{\"case\":%s,\"key\":%s,\"msg\":%s}", i ? "," : "", esc(viol[i].id).c_str(), esc(viol[i].key).c_str(), esc(viol[i].msg).c_str());
    fprintf(f, "]}\n"); fclose(f);
    rename((out + ".json.tmp").c_str(), (out + ".json").c_str());
    return 0;
  }
};
template<class T> std::string str(const std::vector<T> & v, const char * sep = ",") { std::string r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += std::to_string(v[i]); } return r; }
#ifndef FMT
#define FMT
#include <cstdarg>
inline std::string fmt(const char * f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
#endif
