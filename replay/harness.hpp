// common support for the bounded stand-ins (they execute the real code in /repo)
#pragma once
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace H {
static std::string cur, outpath;
static long evals = 0;
static std::set<size_t> seen;
static std::mt19937_64 rng;
static double budget;
static std::chrono::steady_clock::time_point t0;
static int nsamples = 0;
inline void dump() {
    FILE *f = fopen(outpath.c_str(), "w");
    if (f) {
        fputs(cur.c_str(), f);
        fclose(f);
    }
}
inline void onsig(int s) {
    dump();
    if (s == SIGALRM)
        fprintf(stdout, "FAIL does not terminate on the recorded input\n");
    else
        fprintf(stdout, "FAIL crashed with signal %d on the recorded input\n", s);
    fflush(stdout);
    _exit(1);
}
inline void ondeath() { dump(); }
inline void onterm() {
    dump();
    fprintf(stdout, "FAIL uncaught exception on the recorded input\n");
    fflush(stdout);
    _exit(1);
}
inline void init(int argc, char **argv) {
    unsigned long seed = argc > 1 ? strtoul(argv[1], 0, 10) : 1;
    budget = argc > 2 ? atof(argv[2]) : 10;
    outpath = argc > 3 ? argv[3] : "/dev/null";
    rng.seed(seed * 7919 + 13);
    t0 = std::chrono::steady_clock::now();
    std::signal(SIGALRM, onsig);
    std::signal(SIGFPE, onsig);
    if (!getenv("HNOSIG")) std::signal(SIGABRT, onsig);
    if (!__sanitizer_set_death_callback)
        std::signal(SIGSEGV, onsig);
    else
        __sanitizer_set_death_callback(ondeath);
    std::set_terminate(onterm);
}
inline bool more() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget;
}
inline void start_case(const std::string &s, int limit = 60) {
    cur = s;
    evals++;
    seen.insert(std::hash<std::string>()(s));
    if (nsamples < 3) {
        { std::string x = s.substr(0, 280); for (auto &ch : x) if (ch == 10) ch = 59; printf("SAMPLE %s\n", x.c_str()); }
        nsamples++;
    }
    alarm(limit);
}
inline void fail(const std::string &s) {
    dump();
    printf("FAIL %s\n", s.c_str());
    fflush(stdout);
    _exit(1);
}
inline int done() {
    alarm(0);
    printf("OK evaluations=%ld distinct=%zu\n", evals, seen.size());
    fflush(stdout);
    _exit(0);
}
inline int R(int a, int b) { return a + (int)(rng() % (unsigned long)(b - a + 1)); }
template <typename V>
std::string S(const V &v) {
    std::ostringstream o;
    o << '[';
    bool f = true;
    for (auto &x : v) {
        if (!f) o << ',';
        f = false;
        o << x;
    }
    o << ']';
    return o.str();
}
}  // namespace H
