// Shared by the unit-level explorers: arguments, result line, exact memory.
#pragma once
#include "rt.h"
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <time.h>
struct Violation { std::string what; };
[[noreturn]] static void vio(const char *fmt, ...) { char b[700]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); throw Violation{b}; }
static u64 nStates, nTrans, nObs, nApi, nFault;
static std::vector<std::string> samples, path;
static std::map<std::string, std::string> A;
static i64 argI(const char *n, i64 d) { return A.count(n) ? strtoll(A[n].c_str(), 0, 0) : d; }
static std::string argS(const char *n, const char *d) { return A.count(n) ? A[n] : d; }
static std::vector<std::string> split(const std::string &s, char d) { std::vector<std::string> v; std::string c; for (char x : s) if (x == d) { if (!c.empty()) v.push_back(c); c.clear(); } else c += x; if (!c.empty()) v.push_back(c); return v; }
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static double t0;
static std::string pathStr() { std::string s; for (auto &p : path) { if (!s.empty()) s += ' '; s += p; } return s; }
static void sample() { if (samples.size() < 4 && (nStates % 9973 == 7 || samples.empty())) samples.push_back(pathStr()); }
template <class F> static void api(const char *name, F f) {
    nApi++; stack_fill(); int k = guarded(f); if (k) vio("%s: %s", name, stopMsg);
}
static void memCheck(const char *name) { std::string why; if (!arena_check(why)) vio("%s: memory outside its buffers was written: %s", name, why.c_str()); }
static bool replaying = false;
static int finish(const std::string &viol, int capped = 0) {
    if (replaying) { if (viol.empty()) printf("REPLAY-OK\n"); else printf("REPLAY-VIOLATION %s\n", viol.c_str()); return viol.empty() ? 0 : 1; }
    printf("{\"violation\":\"%s\",\"path\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"observations\":%llu,\"api_calls\":%llu,\"faults\":%llu,\"capped\":%d,\"wall\":%.2f,\"samples\":[", jesc(viol).c_str(), jesc(viol.empty() ? "" : pathStr()).c_str(),
           (unsigned long long)nStates, (unsigned long long)nTrans, (unsigned long long)nObs, (unsigned long long)nApi, (unsigned long long)nFault, capped, now() - t0);
    for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    printf("]}\n"); return viol.empty() ? 0 : 1;
}
static void unitInit(int argc, char **argv) {
    for (int i = 1; i < argc; i++) { std::string s = argv[i]; size_t e = s.find('='); if (e == std::string::npos) A[s] = "1"; else A[s.substr(0, e)] = s.substr(e + 1); }
    heapFill = (u8)argI("fill", 0xA5);
    replaying = A.count("replay"); t0 = now(); rt_init();
}
// a heap copy with nothing behind it that belongs to anyone
struct Exact { u8 *p; size_t n; Exact(size_t n_, const void *s = nullptr) : n(n_) { p = (u8 *)malloc(n ? n : 1); if (s) memcpy(p, s, n); } ~Exact() { free(p); } Exact(const Exact &) = delete; operator void *() { return p; } };
