// Calls on separate objects by several threads at once (spec/Threads.tla).
//
// Real threads pass a baton: only its holder runs, and it is handed on at the
// allocations (and releases) of the code under test, at the places a schedule
// asks for.  The schedules are those TLC printed, plus, for pairs of jobs, a
// change of threads at every single such place.  Afterwards the threads run
// freely.  Each job has to return what it returns when run on its own.
#include "common.hpp"

#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/CellSetValues.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <opm/utility/graph/tarjan.h>
#include <opm/utility/numeric/RandomVector.hpp>

#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <new>
#include <thread>

using namespace vf;
namespace FD = Opm::FlowDiagnostics;

extern "C" {
void* __real_malloc(std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __real_realloc(void*, std::size_t);
void  __real_free(void*);
}

// ------------------------------------------------------------------ baton
namespace baton {
struct Run { int who; long long steps; };           // steps < 0: to the end

std::mutex mx;
std::condition_variable cv;
std::vector<Run> plan;
std::size_t at = 0;
long long left = 0;
unsigned long long moves = 0;
bool open = true;                                    // everyone may run
std::vector<char> ended;
long long given_up = 0;

thread_local int me = -1;                            // in a job
thread_local long long places = 0;

int turn() { return at < plan.size() ? plan[at].who : -1; }

// Caller holds mx.  Go to the next entry whose thread has not ended.
void advance() {
    ++moves;
    do { ++at; } while (at < plan.size() && ended[plan[at].who]);
    left = at < plan.size() ? plan[at].steps : -1;
    cv.notify_all();
}

void await(std::unique_lock<std::mutex>& l) {
    unsigned long long seen = moves; int idle = 0;
    while (!open && turn() != me) {
        if (cv.wait_for(l, std::chrono::milliseconds(500)) == std::cv_status::timeout) {
            // The holder waits for something another thread has: let all run.
            if (seen == moves) { if (++idle >= 4) { open = true; ++given_up; cv.notify_all(); } }
            else { seen = moves; idle = 0; }
        }
    }
}

void place() {
    if (me < 0) return;
    ++places;
    std::unique_lock<std::mutex> l(mx);
    ++moves;
    if (open || turn() != me) return;
    if (left > 0 && --left == 0) { advance(); await(l); }
}

struct In {
    explicit In(int w) { places = 0; me = w; if (w >= 0) { std::unique_lock<std::mutex> l(mx); await(l); } }
    ~In() { const int w = me; me = -1; std::unique_lock<std::mutex> l(mx); ended[w] = 1; if (!open && turn() == w) advance(); }
};
} // namespace baton

extern "C" {
void* __wrap_malloc(std::size_t n) { baton::place(); return __real_malloc(n); }
void* __wrap_calloc(std::size_t a, std::size_t b) { baton::place(); return __real_calloc(a, b); }
void* __wrap_realloc(void* q, std::size_t n) { baton::place(); return __real_realloc(q, n); }
void  __wrap_free(void* p) { baton::place(); __real_free(p); }
}
void* operator new(std::size_t n) { baton::place(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { baton::place(); __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

namespace {

// ------------------------------------------------------------------ inputs
struct Net {
    int n = 0;
    std::vector<int> cc;
    std::vector<std::vector<double>> flux;
    int phases = 1;
    std::vector<double> pv;
    std::map<FD::CellSetID, FD::CellSetValues> wells;
    std::vector<FD::CellSet> inj, prod;
};

Net makeNet(std::uint64_t seed, int n) {
    Rng r(seed);
    Net t; t.n = n; t.phases = 1 + r.below(3);
    auto conn = [&](int a, int b, double q) {
        t.cc.push_back(a); t.cc.push_back(b);
        t.flux.emplace_back(t.phases, 0.0);
        t.flux.back()[r.below(t.phases)] = q;
    };
    for (int k = 0; k + 1 < n; ++k) conn(k, k + 1, (1 + r.below(7)) * (r.chance(1, 9) ? -0.5 : 1.0));
    for (int k = 0; k < n; ++k) if (n > 1 && r.chance(1, 2)) { const int a = r.below(n), b = r.below(n); conn(a, b, r.chance(1, 3) && a > b ? 0.25 : (a < b ? 1 : -1) * (0.5 + r.below(4))); }
    for (int k = 0; k < n; ++k) t.pv.push_back(0.5 + r.below(20));
    const std::string tag = r.chance(1, 2) ? "W" : "Well-" + std::string(20, 'x');
    const int wi = 1 + r.below(2), wp = 1 + r.below(2);
    for (int k = 0; k < wi; ++k) {
        const FD::CellSetID id(tag + "I" + std::to_string(k));
        t.wells[id][k % n] += 2 + r.below(5);
        t.inj.emplace_back(id, std::vector<int>{ k % n });
    }
    for (int k = 0; k < wp; ++k) {
        const FD::CellSetID id(tag + "P" + std::to_string(k));
        t.wells[id][n - 1 - k % n] -= 2 + r.below(5);
        t.prod.emplace_back(id, std::vector<int>{ n - 1 - k % n });
    }
    return t;
}

FD::ConnectionValues fluxOf(const Net& t) {
    using CV = FD::ConnectionValues;
    CV v(CV::NumConnections{ t.flux.size() }, CV::NumPhases{ (std::size_t)t.phases });
    for (std::size_t c = 0; c < t.flux.size(); ++c)
        for (int p = 0; p < t.phases; ++p) v(CV::ConnID{ c }, CV::PhaseID{ (std::size_t)p }) = t.flux[c][p];
    return v;
}

using Out = std::vector<double>;
void put(Out& o, const std::vector<double>& v) { o.push_back((double)v.size()); o.insert(o.end(), v.begin(), v.end()); }
void put(Out& o, const FD::CellSetValues& m) { o.push_back((double)m.size()); for (const auto& q : m) { o.push_back(q.first); o.push_back(q.second); } }
void put(Out& o, const std::string& s) { o.push_back((double)s.size()); for (char c : s) o.push_back(c); }
void put(Out& o, const FD::Solution& s) {
    put(o, s.timeOfFlight());
    for (const auto& id : s.startPoints()) { put(o, id.to_string()); put(o, s.concentration(id)); put(o, s.timeOfFlight(id)); }
}

std::unique_ptr<FD::Toolbox> boxOf(const Net& t, const FD::ConnectionValues& v) {
    std::unique_ptr<FD::Toolbox> b(new FD::Toolbox(FD::ConnectivityGraph(t.n, t.cc)));
    b->assignPoreVolume(t.pv);
    b->assignConnectionFlux(v);
    b->assignInflowFlux(t.wells);
    return b;
}

// Objects that several jobs read at once; nobody writes to them.
struct Common {
    Net net;
    FD::ConnectionValues flux;
    FD::ConnectivityGraph graph;
    FD::Toolbox::Forward fwd;
    FD::Toolbox::Reverse rev;
    Opm::AssembledConnections ac, acr;
    FD::CellSet cells;
    std::shared_ptr<TarjanSCCResult> scc;
};
std::unique_ptr<Common> makeCommon(std::uint64_t seed) {
    Net t = makeNet(seed, 9);
    FD::ConnectionValues v = fluxOf(t);
    auto b = boxOf(t, v);
    auto f = b->computeInjectionDiagnostics(t.inj);
    auto r = b->computeProductionDiagnostics(t.prod);
    Opm::AssembledConnections ac, acr;
    for (std::size_t c = 0; c < t.flux.size(); ++c) {
        const int i = t.cc[2 * c], j = t.cc[2 * c + 1];
        double q = 0; for (double x : t.flux[c]) q += x;
        if (i == j || q == 0) continue;
        ac.addConnection(q > 0 ? i : j, q > 0 ? j : i, std::fabs(q));
        acr.addConnection(q > 0 ? j : i, q > 0 ? i : j, std::fabs(q));
    }
    ac.compress(t.n); acr.compress(t.n);
    std::shared_ptr<TarjanSCCResult> scc(tarjan(t.n, ac.startPointers().data(), ac.neighbourhood().data()), destroy_tarjan_sccresult);
    return std::unique_ptr<Common>(new Common{ t, v, FD::ConnectivityGraph(t.n, t.cc), f, r, ac, acr,
                                               FD::CellSet(FD::CellSetID("all"), { 5, 3, 8, 1 }), scc });
}

// ------------------------------------------------------------------ jobs
const int KINDS = 13;
const char* const kindName[KINDS] = { "injection diagnostics", "production diagnostics", "compression", "printing", "decomposition",
    "reachable decomposition", "curves", "pairs", "solver", "random numbers", "containers", "shared solution", "shared graph" };

struct Job { int kind; std::uint64_t seed; int n; const Common* com; };

Out work(const Job& j) {
    Out o;
    Rng r(j.seed ^ 0x5555);
    const Net t = makeNet(j.seed, j.n);
    try {
        switch (j.kind) {
        case 0: case 1: {
            auto b = boxOf(t, fluxOf(t));
            if (j.seed % 3 == 0) { try { b->assignPoreVolume(std::vector<double>(j.n + 1, 1.0)); } catch (const std::logic_error&) { o.push_back(-7); } }
            if (j.kind == 0) put(o, b->computeInjectionDiagnostics(t.inj).fd);
            else put(o, b->computeProductionDiagnostics(t.prod).fd);
            break;
        }
        case 2: case 3: {
            Opm::AssembledConnections ac;
            for (int g = 0; g < 2; ++g) {
                for (std::size_t c = 0; c < t.flux.size(); ++c) {
                    double q = g; for (double x : t.flux[c]) q += x;
                    ac.addConnection(t.cc[2 * c + g], t.cc[2 * c + 1 - g], q);
                    if (c % 3 == 0) ac.addConnection(t.cc[2 * c + g], t.cc[2 * c + 1 - g], q / 3);
                }
                ac.compress(t.n + g);
                for (auto x : ac.startPointers()) o.push_back((double)x);
                for (auto x : ac.neighbourhood()) o.push_back(x);
                put(o, ac.connectionWeight());
                for (int c = 0; c < t.n; ++c) for (const auto& e : ac.cellNeighbourhood(c)) { o.push_back(e.neighbour); o.push_back(e.weight); }
            }
            if (j.kind == 3) { std::ostringstream os; os.precision(3 + j.n % 5); os << ac; os << 1.0 / 3; put(o, os.str()); }
            break;
        }
        case 4: case 5: {
            std::vector<std::size_t> ia{ 0 }; std::vector<int> ja;
            for (int v = 0; v < j.n; ++v) { const int d = r.below(4); for (int k = 0; k < d; ++k) ja.push_back(r.below(j.n)); ia.push_back(ja.size()); }
            ja.push_back(0);
            std::shared_ptr<TarjanWorkSpace> ws(create_tarjan_workspace(j.n + j.n % 3), destroy_tarjan_workspace);
            for (int rep = 0; rep < 2; ++rep) {
                std::shared_ptr<TarjanSCCResult> s;
                if (j.kind == 4) s.reset(tarjan(j.n, ia.data(), ja.data()), destroy_tarjan_sccresult);
                else { const int st[3] = { r.below(j.n), r.below(j.n), r.below(j.n) }; s.reset(tarjan_reachable_sccs(j.n, ia.data(), ja.data(), 3, st, ws.get()), destroy_tarjan_sccresult); }
                for (int turn = 0; turn < 2; ++turn) {
                    const std::size_t nc = tarjan_get_numcomponents(s.get());
                    o.push_back((double)nc);
                    for (std::size_t c = 0; c < nc; ++c) { const auto tc = tarjan_get_strongcomponent(s.get(), c); o.push_back((double)tc.size); for (std::size_t k = 0; k < tc.size; ++k) o.push_back(tc.vertex[k]); }
                    o.push_back(tarjan_reverse_sccresult(s.get()));
                }
            }
            break;
        }
        case 6: {
            std::vector<double> a, b;
            for (int k = 0; k < j.n; ++k) { a.push_back(1 + r.below(50)); b.push_back(1 + r.below(50)); }
            const auto g = FD::flowCapacityStorageCapacityCurve(a, b, t.pv, r.chance(1, 3) ? 0.3 : 1.0);
            put(o, g.first); put(o, g.second);
            o.push_back(FD::lorenzCoefficient(g));
            const auto s = FD::sweepEfficiency(g);
            put(o, s.first); put(o, s.second);
            try { FD::lorenzCoefficient({ a, {} }); } catch (const std::runtime_error&) { o.push_back(-9); }
            break;
        }
        case 7: {
            const Common& c = *j.com;
            for (const auto& i : c.net.inj) for (const auto& p : c.net.prod) {
                const double w = 1 + r.below(5);
                auto q = c.net.wells; for (auto& x : q) for (auto& y : x.second) y.second *= w;
                auto pv = c.net.pv; for (auto& x : pv) x *= w;
                o.push_back(FD::injectorProducerPairVolume(c.fwd, c.rev, pv, i.id(), p.id()));
                const auto f = FD::injectorProducerPairFlux(c.fwd, c.rev, i.id(), p.id(), q);
                o.push_back(f.first); o.push_back(f.second);
            }
            break;
        }
        case 8: {
            Opm::AssembledConnections d, u;
            for (std::size_t c = 0; c < t.flux.size(); ++c) {
                const int i = t.cc[2 * c], k = t.cc[2 * c + 1];
                double q = 0; for (double x : t.flux[c]) q += x;
                if (i == k || q == 0) continue;
                d.addConnection(q > 0 ? i : k, q > 0 ? k : i, std::fabs(q));
                u.addConnection(q > 0 ? k : i, q > 0 ? i : k, std::fabs(q));
            }
            d.compress(t.n); u.compress(t.n);
            FD::CellSetValues src{ { 0, 3.0 }, { t.n / 2, 1.5 } };
            FD::TracerTofSolver s(d, u, t.pv, src);
            for (int k = 0; k < 2; ++k) {
                put(o, s.solveGlobal());
                const auto l = s.solveLocal({ { k ? t.n / 2 : 0, 1.0 } });
                put(o, l.tof); put(o, l.concentration);
            }
            break;
        }
        case 9: {
            Opm::RandomVector g;
            for (int k = 0; k < 3; ++k) {
                put(o, g.normal(2 + j.n % 7, 1.0 * k, 0.5));
                for (int x : g.index(3 + j.n % 5, 10 + j.n)) o.push_back(x);
            }
            break;
        }
        case 10: {
            FD::Solution s;
            for (const auto& w : t.wells) {
                FD::CellSet cs(w.first);
                for (const auto& q : w.second) cs.insert(q.first);
                std::set<int> got(cs.begin(), cs.end());
                for (int c : got) o.push_back(c);
                s.assign(w.first, FD::Solution::TracerConcentration{ w.second });
                FD::CellSetValues half = w.second; for (auto& q : half) q.second /= 2;
                s.assign(w.first, FD::Solution::TimeOfFlight{ half });
            }
            s.assignGlobalToF(std::vector<double>(t.pv));
            FD::Solution c(s);
            c.assign(t.wells.begin()->first, FD::Solution::TimeOfFlight{ {} });
            put(o, s); put(o, c);
            const auto v = fluxOf(t);
            using CV = FD::ConnectionValues;
            for (std::size_t k = 0; k < v.numConnections(); ++k) for (std::size_t p = 0; p < v.numPhases(); ++p) o.push_back(v(CV::ConnID{ k }, CV::PhaseID{ p }));
            try { v(CV::ConnID{ v.numConnections() }, CV::PhaseID{ 0 }); } catch (const std::logic_error&) { o.push_back(-3); }
            break;
        }
        case 11: {
            const Common& c = *j.com;
            FD::Solution mine(c.fwd.fd);
            put(o, mine);
            mine.assign(c.net.inj[0].id(), FD::Solution::TracerConcentration{ { { 1, (double)j.n } } });
            mine.assignGlobalToF(std::vector<double>(3, (double)j.n));
            put(o, mine); put(o, c.fwd.fd); put(o, c.rev.fd);
            const auto g = FD::flowCapacityStorageCapacityCurve(c.fwd, c.rev, c.net.pv);
            put(o, g.first); put(o, g.second);
            break;
        }
        default: {
            const Common& c = *j.com;
            for (int k = 0; k < c.net.n; ++k) for (const auto& e : c.ac.cellNeighbourhood(k)) { o.push_back(e.neighbour); o.push_back(e.weight); }
            { std::set<int> got(c.cells.begin(), c.cells.end()); for (int x : got) o.push_back(x); put(o, c.cells.id().to_string()); }
            for (std::size_t k = 0; k < c.graph.numConnections(); ++k) { const auto q = c.graph.connection(k); o.push_back(q.first); o.push_back(q.second); }
            for (std::size_t k = 0; k < tarjan_get_numcomponents(c.scc.get()); ++k) { const auto tc = tarjan_get_strongcomponent(c.scc.get(), k); o.push_back((double)tc.size); o.push_back(tc.vertex[0]); }
            { std::ostringstream os; os << c.ac; put(o, os.str()); }
            // own solver and toolbox on common inputs
            std::vector<double> pv(c.net.n, 1.0 + j.n);
            FD::TracerTofSolver s(c.ac, c.acr, pv, c.net.wells.at(c.net.inj[0].id()));
            put(o, s.solveGlobal());
            FD::Toolbox b(c.graph);
            b.assignPoreVolume(pv); b.assignConnectionFlux(c.flux); b.assignInflowFlux(c.net.wells);
            put(o, b.computeInjectionDiagnostics(c.net.inj).fd);
        }
        }
    }
    catch (const std::exception& e) { put(o, std::string("exception ") + e.what()); }
    catch (...) { put(o, std::string("exception")); }
    return o;
}

bool same(const Out& a, const Out& b) {
    if (a.size() != b.size()) return false;
    for (std::size_t k = 0; k < a.size(); ++k) {
        const double d = std::fabs(a[k] - b[k]), s = std::max(std::fabs(a[k]), std::fabs(b[k]));
        if (a[k] == b[k] || (std::isnan(a[k]) && std::isnan(b[k]))) continue;
        if (!(d <= 1e-6 * s)) return false;
    }
    return true;
}
std::string where(const Out& a, const Out& b) {
    if (a.size() != b.size()) return "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size());
    for (std::size_t k = 0; k < a.size(); ++k) if (!same({ a[k] }, { b[k] })) { std::ostringstream s; s << "value " << k << ": " << b[k] << " instead of " << a[k]; return s.str(); }
    return "";
}

long long mism = 0;
std::map<std::string, long long> counters;
void bad(long long k, const char* variant, const std::string& msg) {
    if (++mism <= 20) std::cout << "MISMATCH C25 " << k << " " << variant << " " << msg << "\n";
}

Out solo(const Job& j, long long* places) {
    Out o;
    baton::open = true; baton::ended.assign(8, 0); baton::plan.clear(); baton::at = 0;
    std::thread t([&] { Out x; { baton::In in(0); x = work(j); *places = baton::places; } o = x; });
    t.join();
    return o;
}

std::vector<Out> together(const std::vector<Job>& js, const std::vector<baton::Run>& plan, bool free) {
    std::vector<Out> o(js.size());
    baton::plan = plan; baton::at = 0; baton::left = plan.empty() ? -1 : plan[0].steps;
    for (int i = 0; i < (int)js.size(); ++i) baton::plan.push_back({ i, -1 });
    baton::ended.assign(js.size(), 0);
    baton::open = free;
    std::vector<std::thread> ts;
    for (int i = 0; i < (int)js.size(); ++i)
        ts.emplace_back([&, i] { Out x; { baton::In in(i); x = work(js[i]); } o[i] = x; });
    for (auto& t : ts) t.join();
    return o;
}

std::string show(const std::vector<Job>& js, const std::vector<baton::Run>& plan) {
    std::string s;
    for (const auto& j : js) s += std::string(s.empty() ? "" : ", ") + kindName[j.kind];
    s += "; runs";
    for (const auto& p : plan) s += " " + std::to_string(p.who) + ":" + std::to_string(p.steps);
    return s;
}

void check(long long k, const char* variant, const std::vector<Job>& js, const std::vector<Out>& ref, const std::vector<baton::Run>& plan) {
    const auto o = together(js, plan, false);
    ++counters["schedules"];
    for (std::size_t i = 0; i < js.size(); ++i)
        if (!same(ref[i], o[i])) { bad(k, variant, "thread " + std::to_string(i) + ", " + kindName[js[i].kind] + ": " + where(ref[i], o[i]) + "; " + show(js, plan)); return; }
}

} // namespace

int main(int argc, char** argv) {
    const std::uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const int part = std::atoi(opt(argc, argv, "--part", "0")), parts = std::atoi(opt(argc, argv, "--parts", "1"));
    const long long only = std::atoll(opt(argc, argv, "--only", "-1"));
    const long long nsched = std::atoll(opt(argc, argv, "--rnd", "200"));
    const long long npair = std::atoll(opt(argc, argv, "--pairs", "100"));
    const double secs = std::atof(opt(argc, argv, "--free", "2"));
    Progress pr; pr.open(opt(argc, argv, "--progress", ""));
    std::ifstream f(opt(argc, argv, "--in", ""));
    std::vector<std::vector<std::pair<int, int>>> scheds;
    std::string line;
    while (std::getline(f, line)) {
        if (line.empty()) continue;
        const Val v = parseLine(line);
        scheds.emplace_back();
        for (const auto& q : v.v) scheds.back().push_back({ q[0].asInt() - 1, q[1].asInt() });
    }
    if (scheds.empty()) { std::cerr << "no schedules\n"; return 3; }

    const auto com = makeCommon(seed * 31 + 7);
    long long k = -1;
    auto mine = [&]() { ++k; return only >= 0 ? k == only : k % parts == part; };
    auto pick = [&](Rng& r, int kind, int n) { return Job{ kind, r.next() >> 1, n, com.get() }; };
    auto refs = [&](const std::vector<Job>& js, std::vector<long long>& pl) {
        std::vector<Out> o;
        pl.assign(js.size(), 0);
        for (std::size_t i = 0; i < js.size(); ++i) o.push_back(solo(js[i], &pl[i]));
        return o;
    };

    // A change of threads at every place: the first job is stopped there, the
    // second one runs to its end, then the first one goes on.
    for (long long q = 0; q < npair; ++q) {
        if (!mine()) continue;
        pr.at(k, "pair");
        Rng r(seed * 7368787 + k);
        const int ka = (int)(q % KINDS);
        const int kb = q / KINDS % 3 < 2 ? ka : r.below(KINDS);
        const int n = r.range(2, 9);
        std::vector<Job> js{ pick(r, ka, n), pick(r, kb, r.chance(1, 2) ? n : r.range(2, 9)) };
        std::vector<long long> pl;
        const auto ref = refs(js, pl);
        ++counters["pairs"];
        for (long long a = 1; a <= pl[0]; ++a) { pr.at(k, "pair"); check(k, "one-change", js, ref, { { 0, a }, { 1, -1 }, { 0, -1 } }); if (mism > 20) break; }
    }

    // The schedules of the specification, segments ending at places drawn at random.
    for (long long q = 0; q < nsched; ++q) {
        if (!mine()) continue;
        pr.at(k, "schedule");
        Rng r(seed * 15487469 + k);
        const auto& s = scheds[(std::size_t)((q + seed) % (long long)scheds.size())];
        int np = 0, segs = 0; for (const auto& x : s) np = std::max(np, x.first + 1);
        for (const auto& x : s) if (x.first == 0) segs += x.second;
        std::vector<Job> js;
        const int n = r.range(2, 14), kd = r.below(KINDS);
        for (int i = 0; i < np; ++i) js.push_back(pick(r, r.chance(2, 3) ? kd : r.below(KINDS), r.chance(1, 2) ? n : r.range(2, 14)));
        std::vector<long long> pl;
        const auto ref = refs(js, pl);
        for (int rep = 0; rep < 4; ++rep) {
            std::vector<std::vector<long long>> cut(np);
            for (int i = 0; i < np; ++i) {
                for (int c = 1; c < segs; ++c) cut[i].push_back(1 + r.below((int)std::max<long long>(1, pl[i])));
                cut[i].push_back(1LL << 60); cut[i].push_back(0);
                std::sort(cut[i].begin(), cut[i].end());
            }
            std::vector<int> pos(np, 0);
            std::vector<baton::Run> plan;
            for (const auto& x : s) {
                const long long a = cut[x.first][pos[x.first]], b = cut[x.first][pos[x.first] += x.second];
                if (b > a) plan.push_back({ x.first, pos[x.first] == segs ? -1 : b - a });
            }
            check(k, "schedule", js, ref, plan);
        }
    }

    // Threads running freely.
    if (only < 0) {
        pr.at(1000000, "free");
        const auto t0 = std::chrono::steady_clock::now();
        Rng r(seed * 32452843 + part);
        while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs && mism == 0) {
            pr.at(1000000, "free");
            std::vector<Job> js;
            const int n = r.range(2, 60), kd = r.below(KINDS);
            for (int i = 0; i < 4; ++i) js.push_back(pick(r, r.chance(3, 4) ? kd : r.below(KINDS), r.chance(1, 2) ? n : r.range(2, 60)));
            std::vector<long long> pl;
            const auto ref = refs(js, pl);
            for (int rep = 0; rep < 5; ++rep) {
                const auto o = together(js, {}, true);
                ++counters["free_runs"];
                for (std::size_t i = 0; i < js.size(); ++i)
                    if (!same(ref[i], o[i])) { bad(1000000, "free", std::string(kindName[js[i].kind]) + ": " + where(ref[i], o[i]) + "; " + show(js, {})); break; }
            }
        }
    }
    counters["released_early"] = baton::given_up;
    for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
    std::cout << "DONE " << mism << "\n";
    return 0;
}
