// shared protocol of the search harnesses: bounded stand-in and replay of failing inputs
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
namespace vp {
struct ctx {
    uint64_t seed = 1; double budget = 5; bool thorough = false; int shard = 0, nshards = 1;
    uint64_t evals = 0; std::unordered_set<uint64_t> seen; int fails = 0; int samples = 0;
    std::mt19937_64 rng; std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    std::string cur; int curfd = -1;
};
inline ctx& C() { static ctx c; return c; }
// watchdog: a case that makes no progress for `hanglimit` seconds is reported as a hang
inline int& hanglimit() { static int h = 12; return h; }
inline void tick(int) {
    static uint64_t last = 0; static int stuck = 0; auto& c = C();
    if (c.evals != last) { last = c.evals; stuck = 0; return; }
    if (++stuck < hanglimit()) return;
    std::string m = "FAIL key=hang no progress on " + c.cur.substr(0, 4000) + "\nSTAT evaluations=" + std::to_string(c.evals) + " distinct=1\n";
    if (write(1, m.data(), m.size())) {} _exit(1);
}
inline void watch() { signal(SIGALRM, tick); itimerval t{{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &t, nullptr); }
inline void init(int argc, char** argv) {
    auto& c = C();
    if (argc > 1) c.seed = strtoull(argv[1], 0, 10);
    if (argc > 2) c.budget = atof(argv[2]);
    if (argc > 3) c.thorough = !strcmp(argv[3], "thorough");
    if (argc > 4) c.shard = atoi(argv[4]);
    if (argc > 5) c.nshards = atoi(argv[5]);
    c.rng.seed(c.seed * 7919 + c.shard);
    watch();
}
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - C().t0).count(); }
inline bool timeleft() { return elapsed() < C().budget; }
inline uint64_t rnd(uint64_t n) { return n ? C().rng() % n : 0; }   // [0,n)
inline int64_t rint(int64_t a, int64_t b) { return a + (int64_t)rnd((uint64_t)(b - a + 1)); }
inline bool chance(int pct) { return (int)rnd(100) < pct; }
// remember the case being run so that a crash can be attributed to it
inline void cur(const std::string& s) {
    auto& c = C(); c.cur = s;
    // file-backed shared mapping: survives a crash, costs no system call per case
    static char* map = nullptr;
    if (!map) {
        std::string path = "current-" + std::to_string((long)getpid());
        int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, 8192)) return;
        map = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (map == MAP_FAILED) { map = nullptr; return; }
        close(fd);
    }
    size_t n = s.size() < 8191 ? s.size() : 8191; memcpy(map, s.data(), n); map[n] = 0;
}
inline std::string esc(const std::string& s) {
    std::string o; char b[8];
    for (unsigned char ch : s) { if (ch == '\\' || ch == '"') { o += '\\'; o += (char)ch; } else if (ch >= 32 && ch < 127) o += (char)ch; else { snprintf(b, 8, "\\x%02x", ch); o += b; } }
    return o;
}
inline void eval(uint64_t h, bool nontrivial = true) { auto& c = C(); ++c.evals; if (nontrivial && c.seen.size() < 4000000) c.seen.insert(h); }
inline void eval(const std::string& s, bool nontrivial = true) { eval(std::hash<std::string>()(s), nontrivial); }
inline void sample(const std::string& s) { auto& c = C(); if (c.samples < 3) { ++c.samples; std::cout << "SAMPLE " << s << "\n"; } }
inline void fail(const std::string& key, const std::string& detail) {
    auto& c = C(); ++c.fails;
    if (c.fails <= 20) std::cout << "FAIL key=" << key << " " << detail << "\n" << std::flush;
}
inline bool toomany() { return C().fails >= 20; }
inline int finish() {
    auto& c = C();
    std::cout << "STAT evaluations=" << c.evals << " distinct=" << c.seen.size() << "\n" << std::flush;
    return c.fails ? 1 : 0;
}
#define VP_CHECK(cond, key, detail) do { if (!(cond)) { std::ostringstream o_; o_ << detail; vp::fail(key, o_.str()); } } while (0)
}
