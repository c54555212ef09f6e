// Networks and exact solutions as printed by spec/FlowOut.tla, and their
// realisation with the public classes of the library.
#ifndef VERIF_FLOWCASE_HPP
#define VERIF_FLOWCASE_HPP
#include "common.hpp"

#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>

namespace FD = Opm::FlowDiagnostics;
using namespace vf;

namespace {

const double MAXTOF = 200.0 * 365.0 * 24.0 * 60.0 * 60.0;

struct Well { int id, cell; double rate; };

// A concrete problem in doubles.
struct Problem {
    int n = 0;
    std::vector<std::pair<int, int>> conns;
    std::vector<std::vector<double>> flux;   // per connection, per phase
    int phases = 1;
    std::vector<Well> wells;
    std::vector<double> pv;
};

struct Field { std::map<int, double> c, t; };
struct Result {
    bool threw = false; std::string what;
    std::vector<double> tof;
    std::map<int, Field> id;
    std::vector<std::string> starts;
    bool extraEmpty = true;
};

std::string name(int id) {
    static const char* base[] = { "I-", "P-", "WELL ", "x" };
    if (id >= 1000) {
        // names that share long beginnings, some the beginning of others
        std::string s = id % 3 == 0 ? "PLATFORM-NORTH-EAST/TEMPLATE-B/WELL-" : id % 3 == 1 ? "W" : "PLATFORM-NORTH-EAST/TEMPLATE-B/WELL-PRODUCER ";
        if (id % 5 == 0) return s + std::string(1 + (id - 1000) / 5, 'X');
        return s + std::to_string(id - 1000);
    }
    return std::string(base[id % 4]) + std::to_string(id);
}

std::map<FD::CellSetID, FD::CellSetValues> inflow(const Problem& p) {
    std::map<FD::CellSetID, FD::CellSetValues> m;
    for (const auto& w : p.wells) m[FD::CellSetID(name(w.id))][w.cell] = w.rate;
    return m;
}

// Assign the fields of p, in an order given by `order` (0..5).
void assignAll(FD::Toolbox& box, const Problem& p, int order = 0) {
    using CV = FD::ConnectionValues;
    CV flux(CV::NumConnections{ p.conns.size() }, CV::NumPhases{ static_cast<std::size_t>(p.phases) });
    for (std::size_t k = 0; k < p.conns.size(); ++k)
        for (int f = 0; f < p.phases; ++f) flux(CV::ConnID{ k }, CV::PhaseID{ static_cast<std::size_t>(f) }) = p.flux[k][f];
    static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    for (int k = 0; k < 3; ++k) {
        if (perm[order][k] == 0) box.assignPoreVolume(p.pv);
        if (perm[order][k] == 1) box.assignConnectionFlux(flux);
        if (perm[order][k] == 2) box.assignInflowFlux(inflow(p));
    }
}

FD::Toolbox makeBox(const Problem& p) {
    std::vector<int> cc;
    for (const auto& c : p.conns) { cc.push_back(c.first); cc.push_back(c.second); }
    FD::Toolbox box(FD::ConnectivityGraph(p.n, cc));
    assignAll(box, p);
    return box;
}

Result collect(const FD::Solution& s, const std::vector<int>& ids) {
    Result r;
    r.tof = s.timeOfFlight();
    for (int id : ids) {
        Field f;
        f.c = s.concentration(FD::CellSetID(name(id)));
        f.t = s.timeOfFlight(FD::CellSetID(name(id)));
        r.id[id] = f;
    }
    for (const auto& i : s.startPoints()) r.starts.push_back(i.to_string());
    return r;
}

std::vector<FD::CellSet> startSets(const Problem& p, bool fwd, const std::vector<int>& ids, Rng& rng) {
    std::vector<FD::CellSet> s;
    std::vector<int> any;
    for (const auto& w : p.wells) if (fwd ? w.rate > 0 : w.rate < 0) any.push_back(w.cell);
    for (int id : ids) {
        std::vector<int> cells;
        for (const auto& w : p.wells)
            if (w.id == id && (fwd ? w.rate > 0 : w.rate < 0)) cells.push_back(w.cell);
        // The listed start cells only have to be source cells.
        switch (rng.below(4)) {
        case 0: cells.clear(); break;
        case 1: if (!any.empty()) cells.push_back(any[rng.below((int)any.size())]); break;
        default: break;
        }
        s.emplace_back(FD::CellSetID(name(id)), cells);
    }
    // Asking twice is asking once.
    if (!s.empty() && rng.below(5) == 0) { const FD::CellSet again = s[rng.below((int)s.size())]; s.insert(s.begin() + rng.below((int)s.size() + 1), again); }
    return s;
}

Result run(FD::Toolbox& box, const Problem& p, bool fwd, const std::vector<int>& ids, Rng& rng,
           FD::Solution** keep = nullptr) {
    try {
        auto sets = startSets(p, fwd, ids, rng);
        if (fwd) {
            auto s = box.computeInjectionDiagnostics(sets);
            if (keep) *keep = new FD::Solution(s.fd);
            return collect(s.fd, ids);
        }
        auto s = box.computeProductionDiagnostics(sets);
        if (keep) *keep = new FD::Solution(s.fd);
        return collect(s.fd, ids);
    }
    catch (const std::exception& e) { Result r; r.threw = true; r.what = e.what(); return r; }
}

// ------------------------------------------------------------------ expected
struct Exp {
    int cell; double T, tof; bool cap;
};
struct ExpDir {
    std::vector<double> gtof; std::vector<char> gcap;
    std::set<int> fed, region;
    std::map<int, std::vector<Exp>> ids;
    std::vector<int> order;
};
struct Case {
    long long idx;
    Problem p;             // in units
    bool multiPhase;
    int maxT;
    bool cyc, cap, tie, bal;
    ExpDir f, r;
    std::map<std::pair<int,int>, std::vector<double>> pairs;
};

double rat(const Val& v) { return double(v[0].i) / double(v[1].i); }

ExpDir readDir(const Val& v) {
    ExpDir d;
    for (const auto& t : v[0].v) { d.gcap.push_back(t[0].i < 0); d.gtof.push_back(rat(t)); }
    for (const auto& c : v[1].v) d.fed.insert(c.asInt());
    for (const auto& c : v[2].v) d.region.insert(c.asInt());
    for (const auto& e : v[3].v) {
        const int id = e[0].asInt();
        d.order.push_back(id);
        auto& l = d.ids[id];
        for (const auto& x : e[1].v)
            l.push_back({ x[0].asInt(), double(x[1].i) / double(x[2].i), double(x[3].i) / double(x[4].i), x[3].i < 0 });
    }
    return d;
}

Case readCase(const Val& v) {
    Case c;
    c.idx = v[0].i;
    c.p.n = v[1].asInt();
    for (const auto& e : v[2].v) c.p.conns.emplace_back(e[0].asInt(), e[1].asInt());
    c.p.phases = v[3].size() ? (int)v[3][0].size() : 1;
    for (const auto& e : v[3].v) {
        std::vector<double> f;
        for (const auto& x : e.v) f.push_back((double)x.i);
        c.p.flux.push_back(f);
    }
    c.multiPhase = c.p.phases > 1;
    for (const auto& e : v[4].v) c.p.wells.push_back({ e[0].asInt(), e[1].asInt(), (double)e[2].i });
    for (const auto& e : v[5].v) c.p.pv.push_back((double)e.i);
    c.maxT = v[6].asInt();
    c.cyc = v[7][0].i; c.cap = v[7][1].i; c.tie = v[7][2].i; c.bal = v[7][3].i;
    c.f = readDir(v[8]);
    c.r = readDir(v[9]);
    for (std::size_t a = 0; a < c.f.order.size(); ++a)
        for (std::size_t b = 0; b < c.r.order.size(); ++b) {
            const auto& t = v[10][a][b];
            c.pairs[{ c.f.order[a], c.r.order[b] }] = { rat(t[0]), rat(t[1]), rat(t[2]) };
        }
    return c;
}

std::string S(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }

bool close(double a, double b, double rel, double abs) {
    return std::isfinite(a) && std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs;
}

} // namespace
#endif
