// Networks of realistic size and magnitude, written exactly for spec/FlowTrace.tla.
#ifndef VERIF_NETS_HPP
#define VERIF_NETS_HPP
#include "flowcase.hpp"
#include "dyadic.hpp"

namespace {

void problem(std::string& o, const Problem& p) {
    o += "{\"n\":" + std::to_string(p.n) + ",\"conns\":";
    list(o, p.conns, [](std::string& s, const std::pair<int,int>& c) { s += "[" + std::to_string(c.first) + "," + std::to_string(c.second) + "]"; });
    o += ",\"flux\":";
    list(o, p.flux, [](std::string& s, const std::vector<double>& f) { nums(s, f); });
    o += ",\"wells\":";
    list(o, p.wells, [](std::string& s, const Well& x) { s += "[" + std::to_string(x.id) + "," + std::to_string(x.cell) + ","; dy(s, x.rate); s += "]"; });
    o += ",\"pv\":"; nums(o, p.pv);
    std::vector<std::vector<int>> inc(p.n);
    for (std::size_t k = 0; k < p.conns.size(); ++k) {
        inc[p.conns[k].first].push_back((int)k + 1);
        if (p.conns[k].second != p.conns[k].first) inc[p.conns[k].second].push_back((int)k + 1);
    }
    o += ",\"inc\":"; list(o, inc, [](std::string& s, const std::vector<int>& v) { ints(s, v); });
    o += "}";
}

// ------------------------------------------------------------------ networks
double mag(Rng& g, double lo, double hi) {
    const double u = (g.next() >> 11) * (1.0 / 9007199254740992.0);
    return std::pow(10.0, lo + (hi - lo) * u);
}
struct Net { Problem p; bool cyc = false; bool dil = false; bool slow = false; const char* kind = ""; };

// Fluxes have at most 40 significant bits, so that splitting them over phases
// and parallel connections and adding them up again is exact.
void connect(Problem& p, int a, int b, double f) {
    int e;
    f = std::frexp(f, &e);
    f = std::ldexp(std::nearbyint(std::ldexp(f, 40)), e - 40);
    p.conns.emplace_back(a, b); p.flux.push_back({ f });
}
// Spread wells; at most one entry per ID and cell.
void well(Problem& p, int id, int cell, double rate) {
    for (auto& x : p.wells) if (x.id == id && x.cell == cell) return;
    p.wells.push_back({ id, cell, rate });
}
// Random labels, order, orientation.
void scramble(Problem& p, Rng& g) {
    const auto perm = g.perm(p.n);
    for (auto& c : p.conns) { c.first = perm[c.first]; c.second = perm[c.second]; }
    for (auto& x : p.wells) x.cell = perm[x.cell];
    auto pv = p.pv;
    for (int c = 0; c < p.n; ++c) p.pv[perm[c]] = pv[c];
    const auto ord = g.perm((int)p.conns.size());
    auto cc = p.conns; auto ff = p.flux;
    for (std::size_t k = 0; k < ord.size(); ++k) {
        p.conns[k] = cc[ord[k]]; p.flux[k] = ff[ord[k]];
        if (g.below(2)) { std::swap(p.conns[k].first, p.conns[k].second); for (auto& f : p.flux[k]) f = -f; }
    }
}
void inert(Problem& p, Rng& g) {
    for (int k = g.below(4); k > 0; --k) connect(p, g.below(p.n), g.below(p.n), 0.0);
    for (int k = g.below(3); k > 0; --k) { const int c = g.below(p.n); connect(p, c, c, double(g.range(-3, 3))); }
}
std::vector<double> inflowTotals(const Problem& p) {
    std::vector<double> t(p.n, 0.0);
    for (std::size_t k = 0; k < p.conns.size(); ++k) {
        double f = 0; for (double x : p.flux[k]) f += x;
        if (p.conns[k].first == p.conns[k].second) continue;
        t[f > 0 ? p.conns[k].second : p.conns[k].first] += std::fabs(f);
    }
    for (const auto& x : p.wells) if (x.rate > 0) t[x.cell] += x.rate;
    return t;
}

Net scales(Rng& g) {
    Net N; N.kind = "scales"; Problem& p = N.p;
    p.n = g.range(2, 24);
    const double e = std::vector<double>{ 0.5, 3.0, 7.0, 12.0 }[g.below(4)];
    const int m = g.range(p.n - 1, 3 * p.n);
    for (int k = 0; k < m; ++k) {
        int a = g.below(p.n), b = g.below(p.n);
        if (a == b) continue;
        connect(p, std::min(a, b), std::max(a, b), mag(g, -e, e));
    }
    const int nid = g.range(1, 5);
    for (int k = g.range(1, 8); k > 0; --k) {
        const int c = g.below(2) ? g.below(p.n) : g.below(1 + p.n / 4);
        if (g.below(2)) well(p, g.range(1, nid), c, mag(g, -e, e));
        else well(p, g.range(1, nid), p.n - 1 - c, -mag(g, -e, e));
    }
    p.pv.assign(p.n, 0.0);
    const auto t = inflowTotals(p);
    const double lo = std::vector<double>{ -9, -6, -2, -1 }[g.below(4)], hi = g.below(3) ? -1.5 : 1.0;
    for (int c = 0; c < p.n; ++c) if (g.below(8)) p.pv[c] = (t[c] > 0 ? t[c] : 1.0) * MAXTOF * mag(g, lo, std::max(lo, hi));
    inert(p, g);
    scramble(p, g);
    return N;
}

// Balanced flow along paths on a grid.
Net grid(Rng& g, bool loops) {
    Net N; N.kind = loops ? "grid-loops" : "grid"; N.cyc = loops; Problem& p = N.p;
    const int W = g.range(3, loops ? 9 : 16), H = g.range(2, loops ? 9 : 16);
    p.n = W * H;
    std::map<std::pair<int,int>, double> f;
    std::map<std::pair<int,int>, double> q;      // (id, cell) -> rate
    const int nw = g.range(1, 4), np = g.range(1, 4);
    std::vector<int> ic, pc;
    for (int k = 0; k < 6; ++k) { ic.push_back(g.below(loops ? p.n : std::max(1, p.n / 3))); pc.push_back(p.n - 1 - g.below(loops ? p.n : std::max(1, p.n / 3))); }
    for (int k = g.range(5, 30); k > 0; --k) {
        const int wi = g.below(nw), wo = g.below(np);
        int c = ic[(wi * 2 + g.below(2)) % 6];
        const double a = double(1 << g.below(4));
        q[{ 1000 + wi, c }] += a;
        int steps = 0;
        if (loops) {
            for (int s = g.range(1, 25); s > 0; --s) {
                const int x = c % W, y = c / W, d = g.below(4);
                const int X = x + (d == 0) - (d == 1), Y = y + (d == 2) - (d == 3);
                if (X < 0 || Y < 0 || X >= W || Y >= H) continue;
                f[{ c, Y * W + X }] += a; c = Y * W + X;
            }
            (void) steps;
        } else {
            const int t = pc[(wo * 2 + g.below(2)) % 6];
            while (c != t) {
                const int x = c % W, y = c / W, tx = t % W, ty = t / W;
                const bool right = x < tx && (y >= ty || g.below(2)), up = !right && y < ty;
                if (!right && !up) break;
                const int d = right ? c + 1 : c + W;
                f[{ c, d }] += a; c = d;
            }
        }
        q[{ 1010 + wo, c }] -= a;
    }
    for (const auto& e : f) connect(p, e.first.first, e.first.second, e.second);
    for (const auto& e : q) well(p, e.first.first, e.first.second, e.second);
    for (int c = 0; c < p.n; ++c) p.pv.push_back(double(g.range(0, 9)) * 1e5);
    if (g.below(4) == 0) for (auto& x : p.flux) x[0] *= 1.0 + 0.25 * g.below(3);   // compressible
    inert(p, g);
    scramble(p, g);
    return N;
}

Net ring(Rng& g) {
    Net N; N.kind = "ring"; N.cyc = true; Problem& p = N.p;
    // Little of the flow goes round again, so few sweeps are needed even where
    // the numbering runs against the flow.
    const int n = g.range(1025, 1080);
    p.n = n + 3;
    for (int c = 0; c < n; ++c)
        connect(p, c, (c + 1) % n, 1.0 + (c < n / 3 ? 6.0 : 0.0) + (c >= n / 2 && c < 4 * (n / 5) ? 2.0 : 0.0));
    connect(p, n, 0, 6.0); connect(p, n / 3, n + 1, 6.0); connect(p, n + 2, n / 2, 1.0);
    well(p, 1, n, 6.0); well(p, 2, n / 2, 1.0); well(p, 2, n + 2, 1.0);
    well(p, 3, n + 1, -6.0); well(p, 4, 4 * (n / 5), -2.0);
    for (int c = 0; c < p.n; ++c) p.pv.push_back(double(g.range(0, 3)) * 1e3);
    // numbering along or against the flow, or any
    const int s = g.below(3);
    if (s == 0) { }
    else if (s == 1) {
        for (auto& c : p.conns) { c.first = p.n - 1 - c.first; c.second = p.n - 1 - c.second; }
        for (auto& x : p.wells) x.cell = p.n - 1 - x.cell;
        std::reverse(p.pv.begin(), p.pv.end());
    }
    else scramble(p, g);
    return N;
}

Net weak(Rng& g) {
    Net N; N.kind = "weak-loop"; N.cyc = true; Problem& p = N.p;
    const int n = g.range(2, 6), tail = g.range(1, 3);
    p.n = n + tail + 2;
    const double q = mag(g, 1.0, 3.9);
    const double feed = 1.0;
    for (int c = 0; c < n; ++c) connect(p, c, (c + 1) % n, q + (c == 0 ? feed : 0.0));
    connect(p, n + tail, 0, feed);
    connect(p, 1, n, feed);
    for (int k = 1; k < tail; ++k) connect(p, n + k - 1, n + k, feed);
    connect(p, n + tail + 1, n - 1, feed * 0.01);
    well(p, 1, n + tail, feed);
    if (g.below(2)) well(p, 2, n + tail + 1, feed * 0.01);
    if (g.below(2)) well(p, 5, g.below(n), feed * 0.5);
    well(p, 3, n + tail - 1, -feed);
    if (g.below(2)) well(p, 4, g.below(n), -feed);
    for (int c = 0; c < p.n; ++c) p.pv.push_back(double(g.range(0, 5)) * 1e4);
    scramble(p, g);
    return N;
}

// A loop that also receives, and loses, very little of something else: the
// travel times of the trace substance converge with its concentration far below
// the tolerance for concentrations.
Net dilute(Rng& g) {
    Net N; N.kind = "dilute"; N.cyc = true; N.dil = true; Problem& p = N.p;
    const int n = g.range(2, 6);
    p.n = n + 4;
    const double q = mag(g, 1.0, 3.6), tr = mag(g, -10.0, -3.0), tp = mag(g, -10.0, -3.0);
    for (int c = 0; c < n; ++c) connect(p, c, (c + 1) % n, q + (c == 0 ? 1.0 : 0.0));
    connect(p, n, 0, 1.0); connect(p, 1, n + 1, 1.0);
    connect(p, n + 2, g.below(n), tr); connect(p, g.below(n), n + 3, tp);
    well(p, 1, n, 1.0); well(p, 2, n + 2, tr); well(p, 3, n + 1, -1.0); well(p, 4, n + 3, -tp);
    for (int c = 0; c < p.n; ++c) p.pv.push_back(double(g.range(1, 5)) * 1e5);
    p.pv[n + 2] *= tr; p.pv[n + 3] *= tp;
    scramble(p, g);
    return N;
}

// The same with the trace taking longer than the bound in the loop, and counting
// in full where water with more of the trace in it dilutes it afterwards.
Net slowTrace(Rng& g) {
    Net N; N.kind = "slow-trace"; N.cyc = true; N.dil = true; N.slow = true; Problem& p = N.p;
    const int n = g.range(2, 5);
    p.n = n + 7;
    const double q = mag(g, 1.0, 3.0), tr = mag(g, -9.0, -4.0), tp = mag(g, -9.0, -4.0);
    for (int c = 0; c < n; ++c) connect(p, c, (c + 1) % n, q + (c == 0 ? 1.0 : 0.0));
    connect(p, n, 0, 1.0); connect(p, 1, n + 4, 1.0); connect(p, n + 4, n + 1, 1.0);
    connect(p, n + 2, g.below(n), tr); connect(p, g.below(n), n + 3, tp);
    connect(p, n + 5, n + 4, tr * mag(g, 1.0, 4.0)); connect(p, n, n + 6, tp * mag(g, 1.0, 4.0));
    well(p, 1, n, 1.0); well(p, 2, n + 2, tr); well(p, 3, n + 1, -1.0); well(p, 4, n + 3, -tp);
    well(p, 2, n + 5, tr); well(p, 4, n + 6, -tp);
    p.pv.assign(p.n, 0.0);
    const auto t = inflowTotals(p);
    for (int c = 0; c < p.n; ++c) p.pv[c] = t[c] * MAXTOF * (c < n ? mag(g, -2.5, -0.1) : mag(g, -3.0, -1.0));
    scramble(p, g);
    return N;
}

Net star(Rng& g, bool wide) {
    Net N; N.kind = "star"; Problem& p = N.p;
    const int k = wide ? g.range(1030, 1300) : g.range(258, 420);
    p.n = 2 * k + 1;
    for (int c = 0; c < k; ++c) { connect(p, 1 + c, 0, double(g.range(1, 9))); connect(p, 0, 1 + k + c, double(g.range(1, 9)) / 3.0); }
    for (int c = 0; c < 300; ++c) connect(p, 0, 1 + k, 1.0 / 7.0);         // parallel
    for (int c = 0; c < k; ++c) { if (g.below(8)) well(p, 1 + g.below(3), 1 + c, double(g.range(1, 5))); if (g.below(8)) well(p, 7 + g.below(2), 1 + k + c, -double(g.range(1, 5))); }
    for (int c = 0; c < p.n; ++c) p.pv.push_back(double(g.range(0, 9)) * 1e5);
    scramble(p, g);
    return N;
}

Net manyWells(Rng& g) {
    Net N; N.kind = "many-wells"; Problem& p = N.p;
    p.n = g.range(20, 45);
    for (int k = 0; k < p.n; ++k) {
        const int a = g.below(p.n), b = g.below(p.n);
        if (a != b) connect(p, std::min(a, b), std::max(a, b), double(g.range(1, 9)));
    }
    const int ids = g.range(40, 110);
    for (int k = 0; k < ids; ++k)
        for (int c = g.range(1, 3); c > 0; --c) well(p, 1000 + k, g.below(p.n), double(g.range(1, 9)) * (k % 3 ? 1 : -1));
    for (int c = 0; c < p.n; ++c) p.pv.push_back(double(g.range(0, 9)) * 1e5);
    inert(p, g);
    scramble(p, g);
    return N;
}

Net mixed(Rng& g) {
    Net N; N.kind = "mixed"; N.cyc = true; Problem& p = N.p;
    p.n = g.range(3, 40);
    const int m = g.range(p.n, 3 * p.n);
    const bool real = g.below(2);
    for (int k = 0; k < m; ++k) {
        const int a = g.below(p.n);
        int b = g.below(3) ? std::min(p.n - 1, std::max(0, a + g.range(-3, 3))) : g.below(p.n);
        if (a == b) b = (a + 1) % p.n;
        connect(p, a, b, real ? mag(g, -1, 1) : double(g.range(1, 9)));
    }
    for (int k = g.range(1, 10); k > 0; --k) well(p, g.range(1, 5), g.below(p.n), (g.below(2) ? 1 : -1) * (real ? mag(g, -1, 1) : double(g.range(1, 5))));
    for (int c = 0; c < p.n; ++c) p.pv.push_back(double(g.range(0, 9)) * 1e4);
    inert(p, g);
    scramble(p, g);
    return N;
}

// Cells that take nearly as long as the bound to fill, one after the other, and
// streams that join: times far above the bound count where they are diluted.
// With loops, some of it goes round again.
Net slowPath(Rng& g, bool loops, bool large) {
    Net N; N.kind = loops ? "slow-loops" : "slow-path"; N.cyc = loops; N.slow = true; Problem& p = N.p;
    const int n = large ? g.range(1150, 1300) : g.range(3, loops ? 14 : 40), taps = large ? 4 : g.range(1, 4);
    const bool round = loops && g.below(2);       // most of it goes round again, many times
    p.n = n + 2 * taps + 2;
    double q = 1.0;
    for (int c = 0; c + 1 < n; ++c) connect(p, c, c + 1, q);
    well(p, 1, 0, q);
    // young water joins at the end of the path and where it is tapped
    for (int k = 0; k < taps; ++k) {
        const int at = k == 0 ? n - 1 : g.below(n), mix = n + 2 * k, src = mix + 1;
        const double y = large ? mag(g, 2.0, 4.5) : round ? mag(g, 2.0, 5.5) : mag(g, -1.0, 3.0);
        connect(p, at, mix, 0.25 * q); connect(p, src, mix, y);
        well(p, 2 + g.below(2), src, y);
        if (g.below(2)) well(p, 7, mix, -mag(g, -1.0, 2.0));
        if (k > 0 && g.below(2)) connect(p, n + 2 * (k - 1), mix, mag(g, -1.0, 1.0));
    }
    connect(p, n - 1, p.n - 2, 0.25 * q); connect(p, p.n - 2, p.n - 1, 0.25 * q);
    well(p, 7, p.n - 1, -0.25 * q);
    if (loops) for (int k = g.range(1, 3); k > 0; --k) {
        const int a = g.below(n), b = g.below(n);
        if (a != b) connect(p, std::max(a, b), std::min(a, b), round ? mag(g, 1.0, 3.9) : mag(g, -1.0, 1.0));
        if (a != b && round) for (int c = std::min(a, b); c < std::max(a, b); ++c) p.flux[c][0] += std::fabs(p.flux.back()[0]);
    }
    p.pv.assign(p.n, 0.0);
    const auto t = inflowTotals(p);
    for (int c = 0; c < p.n; ++c) {
        const double fill = c < n ? (large || round ? 0.9 + 0.001 * g.below(90) : mag(g, -2.0, -0.01)) : mag(g, -4.0, -1.0);
        p.pv[c] = (t[c] > 0 ? t[c] : 1.0) * MAXTOF * (!large && g.below(12) == 0 ? 1.5 : fill);
    }
    scramble(p, g);
    return N;
}

bool small(double f) { return std::fabs(f) < 1048576.0 && f * 64.0 == std::floor(f * 64.0); }

// Fluxes in several phases whose sums are exact.
void phases(Problem& p, Rng& g) {
    p.phases = g.below(3) ? 1 : g.range(2, 6);
    if (p.phases == 1) return;
    for (auto& f : p.flux) {
        const double x = f[0];
        f.assign(p.phases, 0.0);
        double rest = x;
        for (int k = 0; k + 1 < p.phases; ++k) if (g.below(2)) { f[k] = rest / 2; rest /= 2; }
        f[p.phases - 1] = rest;
        if (small(x) && g.below(2)) { f[0] += 16.0; f[p.phases - 1] -= 16.0; }
    }
}

std::vector<int> activeIDs(const Problem& p, bool fwd) {
    std::set<int> s;
    for (const auto& x : p.wells) if (fwd ? x.rate > 0 : x.rate < 0) s.insert(x.id);
    return { s.begin(), s.end() };
}

// The idx-th network of a run.
Net pickNet(long long idx, Rng& g) {
    Net N;
    const int kind = idx % 16;
    switch (kind) {
    case 0: case 1: case 2: case 3: N = scales(g); break;
    case 4: N = (idx / 16) % 2 == 0 ? scales(g) : slowPath(g, false, (idx / 16) % 4 == 1); break;
    case 5: case 6: N = grid(g, false); break;
    case 7: N = grid(g, true); break;
    case 8: case 9: N = weak(g); break;
    case 10: N = dilute(g); break;
    case 11: case 12: N = mixed(g); break;
    case 13: N = (idx / 16) % 2 == 0 ? mixed(g) : slowPath(g, true, false); break;
    case 14: N = (idx / 16) % 2 == 0 ? star(g, (idx / 32) % 3 == 1) : manyWells(g); break;
    default: N = (idx / 16) % 3 == 0 ? ring(g) : mixed(g); break;
    }
    return N;
}

void units(Problem& p, Rng& g) {
    const double u = std::vector<double>{ 1.0, 1.0, 1.0, std::ldexp(1.0, -60), std::ldexp(1.0, -560), std::ldexp(1.0, 300) }[g.below(6)];
    for (auto& f : p.flux) for (auto& x : f) x *= u;
    for (auto& x : p.wells) x.rate *= u;
    for (auto& x : p.pv) x *= u;
}

} // namespace
#endif
