// Shared by the native drivers: deterministic randomness and reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <functional>
#include <sstream>
#include <iostream>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
namespace vd
{
    inline uint64_t rngState = 88172645463325252ull;
    inline uint64_t rnd() { uint64_t z = (rngState += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
    inline bool chance(unsigned pct) { return below(100) < pct; }
    inline std::string pid, tier; inline uint64_t evals = 0, nontriv = 0; inline int fails = 0; inline std::set<std::string> failKeys;
    inline char cur[4096] = "";
    inline void setCase(const std::string& s) { std::snprintf(cur, sizeof cur, "%s", s.c_str()); }
    inline void dump() { std::printf("CASE %s\n", cur); std::fflush(stdout); }
    extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
    inline void onSignal(int sig) { std::printf("CASE %s (signal %d)\n", cur, sig); std::fflush(stdout); std::_Exit(66); }
    inline void onTerminate() { const char* w = "?"; std::string m; if (auto p = std::current_exception()) { try { std::rethrow_exception(p); } catch (const std::exception& e) { m = e.what(); w = m.c_str(); } catch (...) { w = "non-standard exception"; } } std::printf("CASE %s\nterminate called: %s\n", cur, w); std::fflush(stdout); std::_Exit(66); }
    inline bool thorough() { return tier == "thorough"; }
    inline void init(int argc, char** argv)
    {
        pid = argc > 1 ? argv[1] : ""; rngState ^= (argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1) * 0x9e3779b97f4a7c15ull; tier = argc > 3 ? argv[3] : "quick";
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump);
        for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS }) if (!__sanitizer_set_death_callback || s == SIGABRT) std::signal(s, onSignal);
        std::set_terminate(onTerminate);
        std::setvbuf(stdout, nullptr, _IOLBF, 0);
    }
    inline void fail(const std::string& key, const std::string& what)
    {
        ++fails; if (failKeys.insert(key).second || fails < 20) std::printf("FAIL key=%s %s | case: %s\n", key.c_str(), what.c_str(), cur);
    }
    inline bool check(bool c, const std::string& key, const std::string& what) { if (!c) fail(key, what); return c; }
    inline void count(bool nontrivial = true) { ++evals; if (nontrivial) ++nontriv; }
    inline int done() { std::printf("STAT evaluations=%llu distinct_nontrivial=%llu\n", (unsigned long long)evals, (unsigned long long)nontriv); std::fflush(stdout); std::_Exit(fails ? 1 : 0); }
    inline std::string hex(const uint8_t* p, size_t n) { std::string s; char b[4]; for (size_t i = 0; i < n && i < 400; ++i) { std::snprintf(b, 4, "%02x", p[i]); s += b; } return s; }
    inline std::string hex(const std::vector<uint8_t>& v) { return hex(v.data(), v.size()); }
}
