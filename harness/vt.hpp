// Shared by every C++ harness: verdict lines, crash capture, coverage counts.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <unistd.h>

namespace vt {
using bytes = std::vector<uint8_t>;

inline std::string hex(const uint8_t* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; if (i % 4 == 3 && i + 1 < n) s += ' '; }
    return s;
}
inline std::string hex(const bytes& b) { return hex(b.data(), b.size()); }

struct Stats { uint64_t states = 0, transitions = 0, traces = 0; };
inline Stats stats;
inline std::map<std::string, int> reported;
inline size_t max_reports = 40;
inline char crash_trace[8192];

inline void set_trace(const std::string& s)
{
    size_t n = s.size() < sizeof(crash_trace) - 1 ? s.size() : sizeof(crash_trace) - 1;
    std::memcpy(crash_trace, s.data(), n);
    crash_trace[n] = 0;
}
inline std::string one_line(std::string s)
{
    std::string o;
    for (char c : s) { if (c == '\n') o += "\\n"; else o += c; }
    return o;
}
// key: stable identification of the failing input/history
inline void violation(const std::string& key, const std::string& desc)
{
    if (reported[key]++) return;
    if (reported.size() > max_reports) return;
    std::printf("VIOL %s\t%s\n", key.c_str(), one_line(desc).c_str());
    std::fflush(stdout);
}
inline void finish()
{
    std::printf("STAT %llu %llu %llu\n", (unsigned long long)stats.states, (unsigned long long)stats.transitions, (unsigned long long)stats.traces);
    std::fflush(stdout);
}
inline const char* crash_key = "crash";
inline void on_crash(int sig)
{
    char buf[9000];
    int n = std::snprintf(buf, sizeof buf, "\nVIOL %s:signal-%d\tthe code under test crashed (signal %d) on: %s\n", crash_key, sig, sig, crash_trace);
    (void)!write(1, buf, n);
    _exit(99);
}
inline void install()
{
    static char stack[65536];
    stack_t ss{}; ss.ss_sp = stack; ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
}
inline uint64_t hash(const uint8_t* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; }
    return h;
}
// bit access, offset counted from the most significant bit of byte 0
inline uint64_t getbits(const uint8_t* p, int off, int n)
{
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) { int b = off + i; v = (v << 1) | ((p[b >> 3] >> (7 - (b & 7))) & 1); }
    return v;
}
inline void putbits(uint8_t* p, int off, int n, uint64_t v)
{
    for (int i = 0; i < n; ++i) {
        int b = off + i; uint8_t m = 1u << (7 - (b & 7));
        if ((v >> (n - 1 - i)) & 1) p[b >> 3] |= m; else p[b >> 3] &= ~m;
    }
}
} // namespace vt
