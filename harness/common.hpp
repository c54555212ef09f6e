// Shared pieces of the conformance harnesses.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>

namespace vf {

// ---------------------------------------------------------------- nested integer lists
struct Val {
    bool isInt = true;
    long long i = 0;
    std::vector<Val> v;
    std::size_t size() const { return v.size(); }
    const Val& operator[](std::size_t k) const { return v.at(k); }
    int asInt() const { return static_cast<int>(i); }
};

struct Parser {
    const std::string& s; std::size_t p = 0;
    explicit Parser(const std::string& str) : s(str) {}
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) ++p; }
    Val parse() {
        ws();
        Val r;
        if (s.at(p) == '[') {
            r.isInt = false; ++p; ws();
            if (s.at(p) == ']') { ++p; return r; }
            for (;;) {
                r.v.push_back(parse()); ws();
                if (s.at(p) == ',') { ++p; continue; }
                if (s.at(p) == ']') { ++p; return r; }
                throw std::runtime_error("parse error in case line");
            }
        }
        bool neg = false;
        if (s.at(p) == '-') { neg = true; ++p; }
        if (p >= s.size() || !isdigit((unsigned char)s[p])) throw std::runtime_error("parse error (int)");
        long long x = 0;
        while (p < s.size() && isdigit((unsigned char)s[p])) { x = 10 * x + (s[p] - '0'); ++p; }
        r.i = neg ? -x : x;
        return r;
    }
};

inline Val parseLine(const std::string& s) { Parser q(s); return q.parse(); }

// ---------------------------------------------------------------- deterministic random numbers
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<std::uint64_t>(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int num, int den) { return below(den) < num; }
    template <class V> void shuffle(V& v) {
        for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(static_cast<int>(i))]);
    }
    std::vector<int> perm(int n) {
        std::vector<int> p(n);
        for (int i = 0; i < n; ++i) p[i] = i;
        shuffle(p);
        return p;
    }
};

// ---------------------------------------------------------------- progress and time limit
// The number of the case in hand is kept in a small file so that the driver
// knows which input was running if the process dies.
struct Progress {
    int fd = -1;
    void open(const char* path) { if (path && *path) fd = ::open(path, O_CREAT | O_RDWR | O_TRUNC, 0644); }
    void at(long long k, const char* what = "") {
        if (fd >= 0) {
            char b[160];
            std::memset(b, ' ', sizeof b);
            std::snprintf(b, sizeof b - 1, "%lld %s", k, what);
            b[sizeof b - 1] = '\n';
            (void)!pwrite(fd, b, sizeof b, 0);
        }
        // CPU time limit per case (not wall time): a hang ends in SIGPROF.
        struct itimerval t;
        std::memset(&t, 0, sizeof t);
        t.it_value.tv_sec = 60;
        setitimer(ITIMER_PROF, &t, nullptr);
    }
};

inline const char* opt(int argc, char** argv, const char* name, const char* def) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == name) return argv[i + 1];
    return def;
}

// ---------------------------------------------------------------- exact small rationals
// Nearest fraction with denominator <= maxden; ok only if it agrees with x to
// relative accuracy tol (absolute for values below one).  This is the
// projection from the code's doubles to the specification's rationals.
struct Frac { long long n = 0, d = 0; bool ok = false; };
inline Frac toFrac(double x, long long maxden, double tol) {
    Frac f;
    if (!std::isfinite(x)) return f;
    const bool neg = x < 0; const double ax = std::fabs(x);
    if (ax > 1e9) return f;
    long long p0 = 0, q0 = 1, p1 = 1, q1 = 0; double y = ax;
    for (int it = 0; it < 64; ++it) {
        const double a = std::floor(y);
        if (a > 4e9) break;
        const long long ai = static_cast<long long>(a);
        const long long p2 = ai * p1 + p0, q2 = ai * q1 + q0;
        if (q2 > maxden) break;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        if (std::fabs(static_cast<double>(p1) / static_cast<double>(q1) - ax) <= tol * std::max(1.0, ax)) {
            f.n = neg ? -p1 : p1; f.d = q1; f.ok = f.n <= 2000000000LL && f.n >= -2000000000LL;
            return f;
        }
        const double fr = y - a;
        if (fr <= 0) break;
        y = 1.0 / fr;
    }
    return f;
}

} // namespace vf
#endif
