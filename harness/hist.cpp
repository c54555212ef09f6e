// Walks the state graph of spec/Toolbox.tla (printed by TLC) with real
// toolboxes: every call's outcome, every result, and results obtained earlier
// are compared with the specification and with a fresh toolbox.
#include "flowcase.hpp"

#include <memory>

namespace {

enum { OK = 0, LOGIC = 1, RUNTIME = 2, EITHER = 3, OTHER = 4 };
enum { PV = 0, FLUX = 1, INFLOW = 2, INJ = 3, PROD = 4, MOVE = 5, RENEW = 6 };

struct State { int v[3] = { 0, 0, 0 }; };
bool operator<(const State& a, const State& b) { return std::lexicographical_compare(a.v, a.v + 3, b.v, b.v + 3); }
bool operator==(const State& a, const State& b) { return std::equal(a.v, a.v + 3, b.v); }

struct Tr { int outcome; State to; };
struct StartSet { int id; std::vector<int> cells; };

struct Model {
    int n = 0, maxT = 1;
    double unit = 1.0;          // of flow; pore volumes go with it
    std::vector<std::pair<int, int>> conns;
    int valid[3] = { 0, 0, 0 };
    std::vector<std::vector<double>> pv;
    std::vector<std::vector<std::vector<double>>> flux;
    std::vector<std::vector<Well>> inflow;
    std::vector<std::vector<StartSet>> lists;
    std::map<State, Case> sol;
    std::map<State, std::map<std::pair<int, int>, Tr>> tr;
    int options(int kind) const {
        switch (kind) {
        case PV: return (int)pv.size();
        case FLUX: return (int)flux.size();
        case INFLOW: return (int)inflow.size();
        case INJ: case PROD: return (int)lists.size();
        default: return 1;
        }
    }
};

State rd(const Val& v, std::size_t k) { State s; for (int i = 0; i < 3; ++i) s.v[i] = v[k + i].asInt(); return s; }

std::vector<Model> readModels(std::istream& f) {
    std::vector<Model> ms;
    std::string line;
    while (std::getline(f, line)) {
        if (line.empty()) continue;
        const Val v = parseLine(line);
        switch (v[0].asInt()) {
        case 0: {
            ms.emplace_back();
            auto& m = ms.back();
            m.n = v[1].asInt(); m.maxT = v[3].asInt();
            for (const auto& e : v[2].v) m.conns.emplace_back(e[0].asInt(), e[1].asInt());
            break;
        }
        case 1: {
            auto& m = ms.back();
            const int kind = v[1].asInt();
            m.valid[kind] = v[2].asInt();
            for (const auto& fld : v[3].v) {
                if (kind == PV) { m.pv.emplace_back(); for (const auto& x : fld.v) m.pv.back().push_back((double)x.i); }
                else if (kind == FLUX) {
                    m.flux.emplace_back();
                    for (const auto& x : fld.v) { m.flux.back().emplace_back(); for (const auto& y : x.v) m.flux.back().back().push_back((double)y.i); }
                }
                else { m.inflow.emplace_back(); for (const auto& x : fld.v) m.inflow.back().push_back({ x[0].asInt(), x[1].asInt(), (double)x[2].i }); }
            }
            break;
        }
        case 2:
            for (const auto& l : v[1].v) {
                ms.back().lists.emplace_back();
                for (const auto& s : l.v) {
                    StartSet q; q.id = s[0].asInt();
                    for (const auto& c : s[1].v) q.cells.push_back(c.asInt());
                    ms.back().lists.back().push_back(q);
                }
            }
            break;
        case 3: ms.back().sol[rd(v, 1)] = readCase(v[4]); break;
        case 4: ms.back().tr[rd(v, 1)][{ v[4].asInt(), v[5].asInt() }] = { v[6].asInt(), rd(v, 7) }; break;
        }
    }
    return ms;
}

// ------------------------------------------------------------------ calls
FD::ConnectionValues fluxValues(const std::vector<std::vector<double>>& f, double unit) {
    using CV = FD::ConnectionValues;
    const std::size_t ph = f.empty() ? 1 : f[0].size();
    CV flux(CV::NumConnections{ f.size() }, CV::NumPhases{ ph });
    for (std::size_t k = 0; k < f.size(); ++k)
        for (std::size_t p = 0; p < ph; ++p) flux(CV::ConnID{ k }, CV::PhaseID{ p }) = f[k][p] * unit;
    return flux;
}

std::unique_ptr<FD::Toolbox> newBox(const Model& m) {
    std::vector<int> cc;
    for (const auto& c : m.conns) { cc.push_back(c.first); cc.push_back(c.second); }
    return std::unique_ptr<FD::Toolbox>(new FD::Toolbox(FD::ConnectivityGraph(m.n, cc)));
}

int classify(const std::exception& e) {
    if (dynamic_cast<const std::logic_error*>(&e)) return LOGIC;
    if (dynamic_cast<const std::runtime_error*>(&e)) return RUNTIME;
    return OTHER;
}

std::vector<double> scaledPv(const Model& m, int opt) {
    auto p = m.pv[opt - 1];
    for (auto& x : p) x *= m.unit * (MAXTOF / m.maxT);
    return p;
}

// Texts of the IDs in a walk; texts do not matter as long as they differ.
int naming = 0;
std::string nm(int id) {
    switch (naming) {
    case 1: return id == 3 ? std::string() : name(id);
    case 2: return id == 1 || id == 2 ? std::string(id - 1, ' ') : name(id);
    case 3: return std::string(id, 'A');
    case 4: return std::string("W\0", 2) + std::to_string(id);
    case 5: return name(1000 + 3 * id);
    case 6: return std::string(70, 'x') + std::to_string(9 - id);
    default: return name(id);
    }
}

struct Snapshot {
    std::vector<double> tof;
    std::map<int, Field> id;
    std::multiset<std::string> starts;
};
const int MAXID = 9;

Snapshot snap(const FD::Solution& s) {
    Snapshot r;
    r.tof = s.timeOfFlight();
    for (int id = 1; id <= MAXID; ++id) {
        Field f;
        f.c = s.concentration(FD::CellSetID(nm(id)));
        f.t = s.timeOfFlight(FD::CellSetID(nm(id)));
        r.id[id] = f;
    }
    for (const auto& i : s.startPoints()) r.starts.insert(i.to_string());
    return r;
}

// Performs a call; on success of a computation the solution is in `out`.
int call(FD::Toolbox& b, const Model& m, int kind, int opt, std::unique_ptr<FD::Solution>& out, std::string& what) {
    try {
        switch (kind) {
        case PV: b.assignPoreVolume(scaledPv(m, opt)); break;
        case FLUX: b.assignConnectionFlux(fluxValues(m.flux[opt - 1], m.unit)); break;
        case INFLOW: {
            std::map<FD::CellSetID, FD::CellSetValues> q;
            for (const auto& w : m.inflow[opt - 1]) q[FD::CellSetID(nm(w.id))][w.cell] = w.rate * m.unit;
            b.assignInflowFlux(q);
            break;
        }
        case INJ: case PROD: {
            std::vector<FD::CellSet> s;
            for (const auto& e : m.lists[opt - 1]) s.emplace_back(FD::CellSetID(nm(e.id)), e.cells);
            if (kind == INJ) out.reset(new FD::Solution(b.computeInjectionDiagnostics(s).fd));
            else out.reset(new FD::Solution(b.computeProductionDiagnostics(s).fd));
            break;
        }
        }
        return OK;
    }
    catch (const std::exception& e) { what = e.what(); return classify(e); }
    catch (...) { what = "unknown exception"; return OTHER; }
}

bool accepts(int spec, int got) { return spec == EITHER ? (got == LOGIC || got == RUNTIME) : spec == got; }
const char* word(int o) { static const char* w[] = { "accepted", "a logic error", "a runtime error", "an error", "another exception" }; return w[o]; }

// ------------------------------------------------------------------ comparison
std::set<std::string> want;
long long mism = 0;
std::map<std::string, long long> counters;
void bad(const char* prop, long long k, const char* variant, const std::string& msg) {
    if (!want.empty() && !want.count(prop)) return;
    if (++mism <= 20) std::cout << "MISMATCH " << prop << " " << k << " " << variant << " " << msg << "\n";
}

bool sameField(const std::map<int, double>& a, const std::map<int, double>& b, double rel, double abs) {
    if (a.size() != b.size()) return false;
    for (const auto& q : a) { auto it = b.find(q.first); if (it == b.end() || !close(it->second, q.second, rel, abs)) return false; }
    return true;
}

std::string differ(const Snapshot& a, const Snapshot& b, bool exact, bool cyc, double tu) {
    const double rel = exact ? 0 : cyc ? 1e-4 : 1e-9, abs = exact ? 0 : (cyc ? 1e-5 : 1e-11) * tu;
    if (a.tof.size() != b.tof.size()) return "global tof sizes differ";
    for (std::size_t k = 0; k < a.tof.size(); ++k)
        if (!close(a.tof[k], b.tof[k], rel, abs)) return "global tof[" + S(k) + "]: " + S(a.tof[k]) + " and " + S(b.tof[k]);
    if (a.starts != b.starts) return "start points differ";
    for (const auto& q : a.id) {
        const auto& g = b.id.at(q.first);
        if (!sameField(q.second.c, g.c, rel, 0)) return "concentration of " + nm(q.first);
        if (!sameField(q.second.t, g.t, rel, abs)) return "time of flight of " + nm(q.first);
    }
    return "";
}

std::string againstSpec(const Snapshot& s, const Model& m, const Case& c, bool fwd, const std::vector<StartSet>& list, double tu) {
    const double rel = c.cyc ? 1e-4 : 1e-9, abs = (c.cyc ? 1e-5 : 1e-11) * tu;
    const auto& e = fwd ? c.f : c.r;
    if ((int)s.tof.size() != m.n) return "global tof size";
    for (int k = 0; k < m.n; ++k) {
        const double ex = (e.gcap[k] || !e.region.count(k)) ? MAXTOF : e.gtof[k] * tu;
        if (!close(s.tof[k], ex, rel, abs)) return "global tof[" + S(k) + "] = " + S(s.tof[k]) + ", expected " + S(ex);
    }
    std::set<int> asked; std::multiset<std::string> st;
    for (const auto& l : list) if (asked.insert(l.id).second) st.insert(nm(l.id));
    if (st != s.starts) return "start points";
    for (const auto& q : s.id) {
        if (!asked.count(q.first)) {
            if (!q.second.c.empty() || !q.second.t.empty()) return "fields of " + nm(q.first) + ", which was not requested";
            continue;
        }
        std::map<int, double> ec, et;
        for (const auto& x : e.ids.at(q.first)) { ec[x.cell] = x.T; et[x.cell] = x.cap ? MAXTOF : x.tof * tu; }
        if (!sameField(ec, q.second.c, rel, 0)) return "concentration of " + nm(q.first);
        if (!sameField(et, q.second.t, rel, abs)) return "time of flight of " + nm(q.first);
    }
    return "";
}

bool cyclic(const Model& m, const State& s) { auto it = m.sol.find(s); return it == m.sol.end() || it->second.cyc; }

struct Fresh { int outcome = OTHER; Snapshot s; };
std::map<std::pair<const Model*, std::pair<State, std::pair<int, int>>>, Fresh> freshCache;

const Fresh& fresh(const Model& m, const State& s, int kind, int opt) {
    const auto key = std::make_pair(&m, std::make_pair(s, std::make_pair(kind + 16 * naming, opt)));
    auto it = freshCache.find(key);
    if (it != freshCache.end()) return it->second;
    Fresh f;
    auto b = newBox(m);
    std::unique_ptr<FD::Solution> out; std::string w;
    bool ok = true;
    for (int k = 0; k < 3; ++k) if (s.v[k]) ok = call(*b, m, k, s.v[k], out, w) == OK && ok;
    f.outcome = ok ? call(*b, m, kind, opt, out, w) : OTHER;
    if (f.outcome == OK) f.s = snap(*out);
    return freshCache[key] = f;
}

// ------------------------------------------------------------------ one toolbox in a walk
struct Kept { std::unique_ptr<FD::Solution> sol; Snapshot snap; };

struct Actor {
    const Model* m;
    std::unique_ptr<FD::Toolbox> box;
    State st;
    bool rejected = false;
    explicit Actor(const Model* mm) : m(mm), box(newBox(*mm)) {}
};

struct Walk {
    long long k;
    std::string log;
    std::vector<Kept> kept;

    void step(Actor& a, int kind, int opt, Rng& rng) {
        const Model& m = *a.m;
        log += " " + std::to_string(kind) + ":" + std::to_string(opt);
        ++counters["calls"];
        if (kind == RENEW) { a.box = newBox(m); a.st = State(); a.rejected = false; return; }
        if (kind == MOVE) {
            if (rng.below(2)) { std::unique_ptr<FD::Toolbox> b(new FD::Toolbox(std::move(*a.box))); a.box = std::move(b); }
            else {
                auto b = newBox(m);
                std::unique_ptr<FD::Solution> o; std::string w;
                if (rng.below(2)) { call(*b, m, PV, 1, o, w); call(*b, m, FLUX, 1, o, w); call(*b, m, INFLOW, 1, o, w); call(*b, m, INJ, 1, o, w); }
                *b = std::move(*a.box); a.box = std::move(b);
            }
            return;
        }
        const auto& t = m.tr.at(a.st).at({ kind, opt });
        std::unique_ptr<FD::Solution> out; std::string what;
        const int got = call(*a.box, m, kind, opt, out, what);
        if (!accepts(t.outcome, got)) {
            const std::string msg = std::string("call ") + std::to_string(kind) + ":" + std::to_string(opt) + " gave " + word(got)
                + (what.empty() ? "" : " (" + what + ")") + ", specification: " + word(t.outcome) + "; history" + log;
            bad("C09", k, "outcome", msg);
            if (kind >= INJ) { if (got == OK || t.outcome == OK || fresh(m, a.st, kind, opt).outcome != got) bad("C08", k, "outcome", msg); }
        }
        if (t.outcome != OK) { a.rejected = true; ++counters["rejected"]; }
        if (kind >= INJ && got == OK && t.outcome == OK) {
            ++counters["computed"];
            const double tu = MAXTOF / m.maxT;
            Snapshot s = snap(*out);
            std::string d;
            const auto it = m.sol.find(a.st);
            if (it != m.sol.end()) { d = againstSpec(s, m, it->second, kind == INJ, m.lists[opt - 1], tu); ++counters["against_exact_solution"]; }
            const auto& f = fresh(m, a.st, kind, opt);
            if (d.empty()) d = f.outcome == OK ? differ(f.s, s, false, cyclic(m, a.st), tu) : "";
            if (!d.empty()) {
                bad("C08", k, "value", d + "; history" + log);
                if (a.rejected) bad("C09", k, "value", d + " (after a rejected call); history" + log);
            }
            if (kept.size() < 12) kept.push_back({ std::move(out), s });
        }
        a.st = t.to;
    }

    void finish() {
        for (auto& q : kept) {
            const auto d = differ(q.snap, snap(*q.sol), true, false, 1);
            if (!d.empty()) bad("C08", k, "earlier-result", "a result changed after later calls: " + d + "; history" + log);
            ++counters["earlier_results_rechecked"];
        }
    }
};

// The computations with the longest acceptable start lists, both directions.
void computeAll(Walk& w, Actor& a, Rng& rng) {
    for (int kind : { INJ, PROD }) {
        int best = -1; std::size_t len = 0;
        const int nl = a.m->options(kind);
        const int off = rng.below(nl);
        for (int i = 0; i < nl; ++i) {
            const int l = 1 + (i + off) % nl;
            const auto& t = a.m->tr.at(a.st).at({ kind, l });
            if (t.outcome == OK && (best < 0 || a.m->lists[l - 1].size() > len)) { best = l; len = a.m->lists[l - 1].size(); }
        }
        w.step(a, kind, best < 0 ? 1 + off : best, rng);
    }
}

} // namespace

int main(int argc, char** argv) {
    const std::uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const int part = std::atoi(opt(argc, argv, "--part", "0")), parts = std::atoi(opt(argc, argv, "--parts", "1"));
    const long long only = std::atoll(opt(argc, argv, "--only", "-1"));
    const long long nrand = std::atoll(opt(argc, argv, "--rnd", "1000"));
    const int len = std::atoi(opt(argc, argv, "--len", "4"));
    Progress pr; pr.open(opt(argc, argv, "--progress", ""));
    {
        std::stringstream ss(opt(argc, argv, "--props", "")); std::string t;
        while (std::getline(ss, t, ',')) if (!t.empty()) want.insert(t);
    }
    std::ifstream f(opt(argc, argv, "--in", ""));
    if (!f) { std::cerr << "cannot read models\n"; return 3; }
    std::vector<Model> ms = readModels(f);
    const std::size_t base = ms.size();
    for (double u : { std::ldexp(1.0, -560), std::ldexp(1.0, 300), std::ldexp(1.0, -40) })
        for (std::size_t i = 0; i < base; ++i) { ms.push_back(ms[i]); ms.back().unit = u; }
    if (ms.empty()) { std::cerr << "no models\n"; return 3; }

    long long k = -1;
    auto mine = [&]() { ++k; return only >= 0 ? k == only : k % parts == part; };

    // All call sequences of the given length over a rotating choice of letters,
    // from a toolbox without and one with all inputs.
    const int L = 9;
    long long seqs = 1;
    for (int i = 0; i < len; ++i) seqs *= L;
    for (std::size_t mi = 0; mi < base; ++mi)
        for (long long q = 0; q < seqs; ++q) {
            if (!mine()) continue;
            pr.at(k, "sequence");
            naming = (int)(k / 3 % 7);
            const Model& m = ms[mi + (q % 7 < 4 ? 0 : base * (q % 7 - 3))];
            Rng rng(seed * 7919 + mi);            // letters: fixed per model
            std::vector<std::pair<int, int>> letters;
            auto validOpt = [&](int kind) { return 1 + rng.below(m.valid[kind]); };
            auto badOpt = [&](int kind) { return m.valid[kind] + 1 + rng.below(m.options(kind) - m.valid[kind]); };
            letters.push_back({ PV, validOpt(PV) });
            letters.push_back({ FLUX, validOpt(FLUX) });
            letters.push_back({ FLUX, validOpt(FLUX) });
            letters.push_back({ INFLOW, validOpt(INFLOW) });
            letters.push_back({ INFLOW, validOpt(INFLOW) });
            { const int kd = rng.below(3); letters.push_back({ kd, badOpt(kd) }); }
            letters.push_back({ INJ, 1 + rng.below(m.options(INJ)) });
            letters.push_back({ PROD, 1 + rng.below(m.options(PROD)) });
            letters.push_back({ MOVE, 1 });
            Rng r2(seed * 104729 + k);
            Walk w{ k, "", {} };
            Actor a(&m);
            if (q % 2) {
                w.step(a, PV, 1 + r2.below(m.valid[PV]), r2);
                w.step(a, FLUX, 1 + r2.below(m.valid[FLUX]), r2);
                w.step(a, INFLOW, 1 + r2.below(m.valid[INFLOW]), r2);
                if (q % 4 == 1) computeAll(w, a, r2);
            }
            long long z = q;
            for (int i = 0; i < len; ++i) { const auto& l = letters[z % L]; z /= L; w.step(a, l.first, l.second, r2); }
            computeAll(w, a, r2);
            w.finish();
            ++counters["sequences"];
        }

    // Long random walks of several toolboxes side by side.
    for (long long q = 0; q < nrand; ++q) {
        if (!mine()) continue;
        pr.at(k, "walk");
        naming = (int)(k / 3 % 7);
        Rng rng(seed * 15485863 + k);
        Walk w{ k, "", {} };
        std::vector<std::unique_ptr<Actor>> as;
        const int na = 1 + rng.below(3);
        for (int i = 0; i < na; ++i) as.emplace_back(new Actor(&ms[rng.below((int)(rng.below(2) ? base : ms.size()))]));
        const int steps = rng.range(10, 60);
        for (int i = 0; i < steps; ++i) {
            const int ai = rng.below(na);
            Actor& a = *as[ai];
            w.log += " #" + std::to_string(ai);
            int kind = rng.below(24);
            if (kind == 0) { w.step(a, RENEW, 1, rng); continue; }
            if (kind == 1) { w.step(a, MOVE, 1, rng); continue; }
            kind = kind < 5 ? PV : kind < 9 ? FLUX : kind < 13 ? INFLOW : kind < 19 ? INJ : PROD;
            int o;
            if (kind <= INFLOW) {
                const bool b = rng.chance(1, 5);
                o = b ? a.m->valid[kind] + 1 + rng.below(a.m->options(kind) - a.m->valid[kind]) : 1 + rng.below(a.m->valid[kind]);
            }
            else {
                // Mostly lists that are acceptable now.
                o = 1 + rng.below(a.m->options(kind));
                if (rng.chance(3, 4))
                    for (int tries = 0; tries < 12 && a.m->tr.at(a.st).at({ kind, o }).outcome != OK; ++tries) o = 1 + rng.below(a.m->options(kind));
            }
            w.step(a, kind, o, rng);
        }
        for (auto& a : as) computeAll(w, *a, rng);
        w.finish();
        ++counters["walks"];
    }
    for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
    std::cout << "DONE " << mism << "\n";
    return 0;
}
