// Sequences of solves by one TracerTofSolver, recorded for spec/FlowTrace.tla.
#include "nets.hpp"

#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <memory>

namespace {

std::map<std::string, long long> counters;

struct Graphs { Opm::AssembledConnections down, up; FD::CellSetValues src; };

Graphs graphs(const Problem& p, bool fwd) {
    Graphs g;
    for (std::size_t k = 0; k < p.conns.size(); ++k) {
        double f = 0; for (double x : p.flux[k]) f += x;
        int a = p.conns[k].first, b = p.conns[k].second;
        if (f == 0 || a == b) continue;
        if (f < 0) { std::swap(a, b); f = -f; }
        if (!fwd) std::swap(a, b);
        g.down.addConnection(a, b, f); g.up.addConnection(b, a, f);
    }
    g.down.compress(p.n); g.up.compress(p.n);
    for (const auto& w : p.wells) if (fwd ? w.rate > 0 : w.rate < 0) g.src[w.cell] += std::fabs(w.rate);
    return g;
}

bool good(const FD::CellSetValues& v, int n) {
    for (const auto& q : v) if (q.first < 0 || q.first >= n || !std::isfinite(q.second)) return false;
    return true;
}

void fieldOut(std::string& o, const FD::CellSetValues& f, const char* cn, const char* vn) {
    std::vector<int> c; std::vector<double> v;
    for (const auto& q : f) { c.push_back(q.first); v.push_back(q.second); }
    o += std::string(",\"") + cn + "\":"; ints(o, c);
    o += std::string(",\"") + vn + "\":"; nums(o, v);
}

// One local solve; false if the result cannot even be written down.
bool local(std::string& o, FD::TracerTofSolver& s, const FD::CellSetValues& start, int n) {
    o += "{\"op\":\"local\",\"id\":0,\"ent\":[";
    bool first = true;
    for (const auto& q : start) {
        if (!first) o += ",";
        first = false;
        o += "[0," + std::to_string(q.first) + ","; dy(o, q.second); o += "]";
    }
    o += "]";
    try {
        const auto r = s.solveLocal(start);
        if (!good(r.tof, n) || !good(r.concentration, n)) return false;
        fieldOut(o, r.concentration, "cells", "T");
        fieldOut(o, r.tof, "tcells", "t");
    }
    catch (const std::exception&) { return false; }
    o += "}";
    ++counters["local"];
    return true;
}

bool global(std::string& o, FD::TracerTofSolver& s, int n) {
    try {
        const auto g = s.solveGlobal();
        if ((int)g.size() != n) return false;
        for (double x : g) if (!std::isfinite(x)) return false;
        o += "{\"op\":\"global\",\"g\":"; nums(o, g); o += "}";
    }
    catch (const std::exception&) { return false; }
    ++counters["global"];
    return true;
}

void refused(std::string& o, FD::TracerTofSolver& s, const FD::CellSetValues& start) {
    int out = 0;
    try { s.solveLocal(start); }
    catch (const std::logic_error&) { out = 1; }
    catch (const std::exception&) { out = 2; }
    o += "{\"op\":\"refused\",\"out\":" + std::to_string(out) + "}";
    ++counters["refused"];
}

std::string makeRecord(long long idx, std::uint64_t seed) {
    Rng g(seed * 6151 + idx * 2654435761ull + 5);
    Net N = pickNet(idx, g);
    Problem& p = N.p;
    if (p.conns.empty()) connect(p, 0, p.n - 1, 0.0);
    phases(p, g);
    units(p, g);
    bool fwd = g.below(2);
    if (activeIDs(p, fwd).empty()) fwd = !fwd;
    const Graphs gr = graphs(p, fwd);
    bool fit = true;
    std::string body, all;
    // All sources together, by a solver of its own.
    for (int k = 0; k < 7; ++k) {
        all.clear();
        try {
            FD::TracerTofSolver s(gr.down, gr.up, p.pv, gr.src);
            fit = local(all, s, gr.src, p.n);
            if (!N.cyc) break;
            // With loops, times beyond the bound are avoided: see FlowTrace.
            bool cap = false;
            for (const auto& q : s.solveLocal(gr.src).tof) cap = cap || q.second >= MAXTOF;
            // parts of the sources may take longer than all of them
            for (const auto& q : gr.src) for (const auto& t : s.solveLocal({ q }).tof) { cap = cap || t.second >= MAXTOF; if (cap) break; }
            if (!cap) break;
            for (auto& x : p.pv) x /= 64.0;
        }
        catch (const std::exception&) { fit = false; break; }
    }
    if (fit) {
        FD::TracerTofSolver s(gr.down, gr.up, p.pv, gr.src);
        std::vector<std::pair<int,double>> src(gr.src.begin(), gr.src.end());
        const int num = p.n > 300 ? 2 : g.range(3, 6);
        for (int k = 0; k < num && fit; ++k) {
            if (k) body += ",";
            const int what = g.below(8);
            FD::CellSetValues start;
            if (what >= 2) {
                auto pick = src;
                g.shuffle(pick);
                const int m = what == 7 ? (int)pick.size() : g.range(what == 2 ? 0 : 1, std::min<int>(3, pick.size()));
                for (int j = 0; j < m && j < (int)pick.size(); ++j)
                    start[pick[j].first] = pick[j].second * (g.below(2) || N.dil ? 1.0 : g.range(1, 8) / 8.0);
            }
            if (what == 0) fit = global(body, s, p.n);
            else if (what == 1) {
                if (!src.empty()) start.insert(src[g.below((int)src.size())]);
                // one negative rate among the others
                const int c = g.below(2) && !src.empty() ? src[g.below((int)src.size())].first : g.below(p.n);
                start[c] = -1.0 - g.below(3);
                refused(body, s, start);
            }
            else fit = local(body, s, start, p.n);
        }
        if (fit) { body += ","; fit = global(body, s, p.n); }
    }
    std::string o = "{\"id\":" + std::to_string(idx) + ",\"kind\":\"" + N.kind + "\",\"cyc\":" + (N.cyc ? "1" : "0") + ",\"dil\":" + (N.dil ? "1" : "0")
        + ",\"cap\":" + (N.cyc ? "0" : "1") + ",\"fit\":" + (fit ? "1" : "0") + ",\"fwd\":" + (fwd ? "1" : "0") + ",\"p\":";
    problem(o, p);
    if (fit) o += ",\"all\":" + all + ",\"solves\":[" + body + "]";
    o += "}\n";
    return o;
}

// ------------------------------------------------------------------ replay
// Histories of solves with their exact results, printed from spec/SolverAlgo.tla.
long long mism = 0;

void bad(long long idx, long long at, const std::string& msg) {
    if (++mism <= 20) std::cout << "MISMATCH C24 " << idx << " solve-" << at << " " << msg << "\n";
}

void replay(long long line, const Val& v) {
    const long long idx = line;
    Problem p;
    p.n = v[1].asInt();
    for (const auto& e : v[2].v) p.conns.emplace_back(e[0].asInt(), e[1].asInt());
    for (const auto& e : v[3].v) p.flux.push_back({ double(e[0].i) });
    for (const auto& e : v[4].v) p.wells.push_back({ e[0].asInt(), e[1].asInt(), double(e[2].i) });
    const double tu = MAXTOF / double(v[6].i);
    for (const auto& e : v[5].v) p.pv.push_back(double(e.i) * tu);
    const bool cyc = v[7].i != 0;
    const double rel = cyc ? 1e-5 : 1e-10, abs = (cyc ? 1e-6 : 1e-12) * tu;
    const Graphs gr = graphs(p, true);
    FD::TracerTofSolver s(gr.down, gr.up, p.pv, gr.src);
    long long at = 0;
    for (const auto& h : v[8].v) {
        ++at;
        FD::CellSetValues start;
        for (int c = 0; c < p.n; ++c) if (h[1][c].i != 0) start[c] = double(h[1][c].i);
        try {
            if (h[0].i == 1) {
                const auto g = s.solveGlobal();
                if ((int)g.size() != p.n) { bad(idx, at, "global solve gives " + S(g.size()) + " values"); continue; }
                for (int c = 0; c < p.n; ++c) {
                    const double e = h[2][c][0].i < 0 ? MAXTOF : tu * rat(h[2][c]);
                    if (!close(g[c], e, rel, abs)) bad(idx, at, "global tof[" + S(c) + "] = " + S(g[c]) + ", expected " + S(e));
                }
            }
            else {
                const auto r = s.solveLocal(start);
                if (h[0].i == 3) { bad(idx, at, "negative source not refused"); continue; }
                if (r.tof.size() != h[2].size() || r.concentration.size() != h[2].size()) { bad(idx, at, "region differs"); continue; }
                for (const auto& e : h[2].v) {
                    const int c = e[0].asInt();
                    const auto ic = r.concentration.find(c), it = r.tof.find(c);
                    if (ic == r.concentration.end() || it == r.tof.end()) { bad(idx, at, "region differs"); break; }
                    const double T = double(e[1].i) / double(e[2].i), t = e[3].i < 0 ? MAXTOF : tu * double(e[3].i) / double(e[4].i);
                    if (!close(ic->second, T, rel, 0.0)) bad(idx, at, "concentration[" + S(c) + "] = " + S(ic->second) + ", expected " + S(T));
                    if (!close(it->second, t, rel, abs)) bad(idx, at, "tof[" + S(c) + "] = " + S(it->second) + ", expected " + S(t));
                }
            }
            ++counters["replayed_solves"];
        }
        catch (const std::logic_error& e) { if (h[0].i != 3) bad(idx, at, std::string("exception: ") + e.what()); else ++counters["replayed_refusals"]; }
        catch (const std::exception& e) { bad(idx, at, std::string("exception: ") + e.what()); }
    }
    ++counters["histories"];
}

} // namespace

int main(int argc, char** argv) {
    const std::uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const int part = std::atoi(opt(argc, argv, "--part", "0")), parts = std::atoi(opt(argc, argv, "--parts", "1"));
    const long long only = std::atoll(opt(argc, argv, "--only", "-1"));
    const long long num = std::atoll(opt(argc, argv, "--num", "64"));
    Progress pr; pr.open(opt(argc, argv, "--progress", ""));
    const std::string in = opt(argc, argv, "--in", "");
    if (!in.empty()) {
        std::ifstream f(in);
        if (!f) { std::cerr << "cannot read " << in << "\n"; return 3; }
        std::string line;
        for (long long k = 0; std::getline(f, line); ++k) {
            if (line.empty() || (only >= 0 ? k != only : k % parts != part)) continue;
            pr.at(k);
            replay(k, parseLine(line));
        }
        for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
        std::cout << "DONE " << mism << "\n";
        return 0;
    }
    std::ofstream out(std::string(opt(argc, argv, "--out", "/dev/null")) + "." + std::to_string(part));
    for (long long k = 0; k < num; ++k) {
        if (only >= 0 ? k != only : (k + k / 16) % parts != part) continue;
        pr.at(k);
        out << makeRecord(k, seed);
        ++counters["records"];
    }
    for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
    std::cout << "DONE 0\n";
    return 0;
}
