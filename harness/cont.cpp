// Histories of the library's value holders, recorded for spec/ContTrace.tla.
#include "common.hpp"

#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <opm/utility/numeric/RandomVector.hpp>

#include <functional>
#include <limits>
#include <memory>

namespace FD = Opm::FlowDiagnostics;
using namespace vf;

namespace {

std::ofstream out;
std::map<std::string, long long> counters;

template <class V> std::string list(const V& v) {
    std::ostringstream o; o << '['; bool f = true;
    for (const auto& x : v) { if (!f) o << ','; o << x; f = false; }
    o << ']'; return o.str();
}
const long long BADV = 1999999999;
long long integer(double x) { return std::isfinite(x) && std::fabs(x) < 1e9 && x == std::floor(x) ? (long long)x : BADV; }
std::string field(const FD::CellSetValues& v) {
    std::ostringstream o; o << '['; bool f = true;
    for (const auto& q : v) { if (!f) o << ','; o << '[' << q.first << ',' << integer(q.second) << ']'; f = false; }
    o << ']'; return o.str();
}

// Texts that are easily confused.
std::vector<std::string> texts(Rng& rng, int n) {
    std::vector<std::string> pool = { "", "A", "a", "B", "AA", "AB", "A ", " A", "I-1", "I-10", "I-2", "I-01", "PROD", "PROD1", "PROD2", "prod",
                                      std::string("A\0B", 3), std::string("A\0C", 3), std::string("A\0", 2), std::string("\0", 1), "\x7f", "\x80", "\xff", "W\xc3\xa5", "10", "9", "-1", "A\n" };
    for (int len : { 7, 8, 15, 16, 23, 31, 32, 63, 64, 127, 128, 255, 256, 300 }) {
        const std::string p(len, 'x');
        pool.push_back(p); pool.push_back(p + "1"); pool.push_back(p + "2"); pool.push_back("y" + p); pool.push_back(p + "y" + p);
    }
    rng.shuffle(pool);
    std::vector<std::string> r(pool.begin(), pool.begin() + std::min<std::size_t>(n, pool.size()));
    if (n >= 2 && rng.below(2)) {     // a pair with a common beginning
        const std::string p((std::size_t)rng.range(1, 40), 'q');
        r[0] = p + "1"; r[1] = p + "2";
    }
    return r;
}

// ------------------------------------------------------------------ solutions
struct SolDriver {
    std::map<int, std::unique_ptr<FD::Solution>> live;
    std::vector<std::string> names;
    std::ostringstream o;
    bool first = true;

    void look() {
        o << ",\"look\":[";
        bool f = true;
        for (const auto& q : live) {
            const FD::Solution& s = *q.second;
            std::vector<long long> g;
            for (double x : s.timeOfFlight()) g.push_back(integer(x));
            std::vector<int> st;
            for (const auto& i : s.startPoints()) {
                int k = -1;
                for (std::size_t j = 0; j < names.size(); ++j) if (names[j] == i.to_string()) k = (int)j;
                st.push_back(k);
            }
            o << (f ? "" : ",") << "{\"s\":" << q.first << ",\"g\":" << list(g) << ",\"starts\":" << list(st) << ",\"ids\":[";
            for (std::size_t j = 0; j < names.size(); ++j)
                o << (j ? "," : "") << '[' << j << ',' << field(s.timeOfFlight(FD::CellSetID(names[j]))) << ',' << field(s.concentration(FD::CellSetID(names[j]))) << ']';
            o << "]}";
            f = false;
        }
        o << "]}";
    }
    void sep() { if (!first) o << ','; first = false; }
    void make(int s) { live[s].reset(new FD::Solution); sep(); o << "{\"op\":\"new\",\"s\":" << s; look(); }
    void copy(int s, int from) {
        std::unique_ptr<FD::Solution> p(new FD::Solution(*live.at(from)));
        live[s] = std::move(p);
        sep(); o << "{\"op\":\"copy\",\"s\":" << s << ",\"from\":" << from; look();
    }
    void move(int s, int from) {
        std::unique_ptr<FD::Solution> p(new FD::Solution(std::move(*live.at(from))));
        live.erase(from); live[s] = std::move(p);
        sep(); o << "{\"op\":\"move\",\"s\":" << s << ",\"from\":" << from; look();
    }
    void del(int s) { live.erase(s); sep(); o << "{\"op\":\"del\",\"s\":" << s; look(); }
    void gtof(int s, const std::vector<int>& v) {
        std::vector<double> d(v.begin(), v.end());
        live.at(s)->assignGlobalToF(std::move(d));
        sep(); o << "{\"op\":\"gtof\",\"s\":" << s << ",\"v\":" << list(v); look();
    }
    void put(int s, int id, bool conc, const FD::CellSetValues& v) {
        if (conc) live.at(s)->assign(FD::CellSetID(names[id]), FD::Solution::TracerConcentration{ v });
        else live.at(s)->assign(FD::CellSetID(names[id]), FD::Solution::TimeOfFlight{ v });
        sep(); o << "{\"op\":\"" << (conc ? "conc" : "tof") << "\",\"s\":" << s << ",\"id\":" << id << ",\"v\":" << field(v); look();
    }
};

FD::CellSetValues last;
FD::CellSetValues someField(Rng& rng) {
    // often one that differs little from the one before
    FD::CellSetValues v = last;
    if (!v.empty() && rng.below(3) == 0) {
        auto it = v.begin(); std::advance(it, rng.below((int)v.size()));
        const int r = rng.below(4);
        if (r == 0) it->second += 1;
        else if (r == 1) v.erase(it);
        else if (r == 2) v[rng.below(40)] = 3;
        else { const double x = it->second; const int c = it->first; v.erase(it); v[c + 1] = x; }
        return last = v;
    }
    v.clear();
    const int n = rng.below(4) ? rng.below(4) : rng.range(5, 30);
    for (int k = 0; k < n; ++k) v[rng.below(40)] = rng.range(-5, 50);
    return last = v;
}

void solHistory(long long id, Rng& rng, const std::vector<int>* fixed) {
    SolDriver d;
    last.clear();
    d.names = texts(rng, fixed ? 2 : rng.range(1, 5));
    int next = 0;
    auto any = [&]() { auto it = d.live.begin(); std::advance(it, rng.below((int)d.live.size())); return it->first; };
    if (fixed) {
        // Three slots; letters act on slots 0 and 1.
        d.make(0);
        for (int letter : *fixed) {
            const bool has1 = d.live.count(1) > 0;
            switch (letter) {
            case 0: d.put(0, 0, true, someField(rng)); break;
            case 1: d.put(0, 0, false, someField(rng)); break;
            case 2: d.put(0, 1, true, {}); break;
            case 3: d.gtof(0, { 1, 2, rng.below(100) }); break;
            case 4: if (has1) d.put(1, 0, true, someField(rng)); else d.copy(1, 0); break;
            case 5: d.copy(1, 0); break;
            case 6: if (has1) d.gtof(1, {}); else d.make(1); break;
            case 7: if (has1) d.move(0, 1); else d.move(1, 0), d.copy(0, 1); break;
            case 8: if (has1) d.put(1, 1, false, someField(rng)); else d.put(0, 1, false, someField(rng)); break;
            case 9: if (has1) d.copy(0, 1); else d.copy(2, 0); break;
            }
        }
    }
    else {
        d.make(next++);
        const int steps = rng.range(5, 40);
        for (int i = 0; i < steps; ++i) {
            const int c = rng.below(16);
            if (c == 0 && d.live.size() < 4) d.make(next++);
            else if (c <= 3 && d.live.size() < 4) { const int f = any(); d.copy(next++, f); }
            else if (c == 4) { const int f = any(); if (rng.below(3)) d.copy(f, any()); else d.move(next++, f); }
            else if (c == 5) { const int f = any(); d.move(next++, f); }
            else if (c == 6 && d.live.size() > 1) d.del(any());
            else if (c <= 8) { std::vector<int> v(rng.below(6)); for (auto& x : v) x = rng.below(1000); d.gtof(any(), v); }
            else d.put(any(), rng.below((int)d.names.size()), rng.below(2), someField(rng));
        }
    }
    out << "{\"kind\":\"sol\",\"id\":" << id << ",\"ops\":[" << d.o.str() << "]}\n";
    ++counters["solution_histories"];
}

// ------------------------------------------------------------------ cell sets
void setHistory(long long id, Rng& rng) {
    std::map<int, std::unique_ptr<FD::CellSet>> live;
    const auto names = texts(rng, 3);
    std::ostringstream o;
    bool first = true;
    int next = 0;
    auto look = [&]() {
        o << ",\"look\":[";
        bool f = true;
        for (const auto& q : live) {
            std::vector<int> v;
            const FD::CellSet& s = *q.second;
            for (const int c : s) v.push_back(c);
            int k = -1;
            for (std::size_t j = 0; j < names.size(); ++j) if (names[j] == s.id().to_string()) k = (int)j;
            o << (f ? "" : ",") << "{\"s\":" << q.first << ",\"id\":" << k << ",\"v\":" << list(v) << "}";
            f = false;
        }
        o << "]}";
    };
    auto cell = [&]() { const int r = rng.below(12); return r == 0 ? 2000000000 - rng.below(3) : r == 1 ? rng.range(60000, 70000) : r == 2 ? -rng.below(3) : rng.below(12); };
    const bool large = rng.below(100) == 0;
    const int steps = large ? rng.range(3, 6) : rng.range(3, 25);
    for (int i = 0; i < steps; ++i) {
        const int c = rng.below(8);
        auto any = [&]() { auto it = live.begin(); std::advance(it, rng.below((int)live.size())); return it->first; };
        if (!first) o << ',';
        if (live.empty() || (c == 0 && live.size() < 4)) {
            const int k = rng.below(3);
            std::vector<int> v;
            if (large || rng.below(3)) { v.resize(large ? rng.range(1000, 5000) : rng.below(10)); for (auto& x : v) x = large && rng.below(3) ? rng.below(100000) : cell(); live[next].reset(new FD::CellSet(FD::CellSetID(names[k]), v)); }
            else live[next].reset(new FD::CellSet(FD::CellSetID(names[k])));
            o << "{\"op\":\"new\",\"s\":" << next << ",\"id\":" << k << ",\"v\":" << list(v);
            ++next;
        }
        else if (c == 1 && live.size() < 4) {
            const int f = any();
            live[next].reset(new FD::CellSet(*live[f]));
            o << "{\"op\":\"copy\",\"s\":" << next << ",\"from\":" << f;
            ++next;
        }
        else if (c == 2 && live.size() > 1) {
            const int f = any(), t = any();
            if (t != f) { *live[t] = *live[f]; o << "{\"op\":\"copy\",\"s\":" << t << ",\"from\":" << f; }
            else { std::unique_ptr<FD::CellSet> p(new FD::CellSet(std::move(*live[f]))); live.erase(f); live[next] = std::move(p); o << "{\"op\":\"move\",\"s\":" << next << ",\"from\":" << f; ++next; }
        }
        else {
            const int s = any(), x = cell();
            live[s]->insert(x);
            o << "{\"op\":\"insert\",\"s\":" << s << ",\"c\":" << x;
        }
        first = false;
        look();
    }
    out << "{\"kind\":\"set\",\"id\":" << id << ",\"ops\":[" << o.str() << "]}\n";
    ++counters["cellset_histories"];
}

// ------------------------------------------------------------------ connection values
void tabHistory(long long id, Rng& rng) {
    using CV = FD::ConnectionValues;
    std::map<int, std::unique_ptr<CV>> live;
    std::ostringstream o;
    bool first = true;
    int next = 0;
    auto look = [&]() {
        o << ",\"look\":[";
        bool f = true;
        for (const auto& q : live) {
            const CV& t = *q.second;
            std::vector<long long> v;
            if (t.numConnections() < 20000 && t.numPhases() < 1000)
                for (std::size_t c = 0; c < t.numConnections(); ++c)
                    for (std::size_t p = 0; p < t.numPhases(); ++p) v.push_back(integer(t(CV::ConnID{ c }, CV::PhaseID{ p })));
            o << (f ? "" : ",") << "{\"s\":" << q.first << ",\"nc\":" << std::min<std::size_t>(t.numConnections(), 1999999999) << ",\"np\":" << std::min<std::size_t>(t.numPhases(), 1999999999) << ",\"v\":" << list(v) << "}";
            f = false;
        }
        o << "]}";
    };
    const bool large = rng.below(100) == 0;
    const int steps = large ? rng.range(4, 10) : rng.range(4, 30);
    for (int i = 0; i < steps; ++i) {
        const int k = rng.below(10);
        if (!first) o << ',';
        first = false;
        if (live.empty() || (k == 0 && live.size() < 3)) {
            int nc = rng.below(7) ? rng.below(5) : rng.range(10, 60), np = rng.below(5);
            if (large) { nc = rng.range(300, 3000); np = rng.below(4); if (rng.below(4) == 0) { nc = rng.range(1, 9); np = rng.range(300, 900); } }
            live[next].reset(new CV(CV::NumConnections{ (std::size_t)nc }, CV::NumPhases{ (std::size_t)np }));
            o << "{\"op\":\"new\",\"s\":" << next++ << ",\"nc\":" << nc << ",\"np\":" << np;
            look();
            continue;
        }
        auto it = live.begin(); std::advance(it, rng.below((int)live.size()));
        const int s = it->first;
        if (k == 1 && live.size() < 3) {
            live[next].reset(new CV(*live[s]));
            o << "{\"op\":\"copy\",\"s\":" << next++ << ",\"from\":" << s;
            look();
            continue;
        }
        if (k == 2 && live.size() > 1) {
            auto jt = live.begin(); std::advance(jt, rng.below((int)live.size()));
            if (jt->first != s) { *jt->second = *live[s]; o << "{\"op\":\"copy\",\"s\":" << jt->first << ",\"from\":" << s; look(); continue; }
        }
        CV& t = *live[s];
        auto index = [&](std::size_t n) -> std::size_t {
            const int r = rng.below(12);
            if (r == 0) return n;
            if (r == 1) return n + 1 + rng.below(3);
            if (r == 2) return std::numeric_limits<std::size_t>::max() - rng.below(3);
            if (r == 3) return (std::numeric_limits<std::size_t>::max() / std::max<std::size_t>(1, n)) + 1;
            if (r == 4) return std::size_t(1) << (rng.below(2) ? 32 : 63);
            return n ? rng.below((int)n) : 0;
        };
        const std::size_t c = index(t.numConnections()), p = index(t.numPhases());
        const int v = rng.range(-1000, 1000);
        int res = 0; long long got = v;
        const int what = rng.below(3);
        try {
            if (what == 0) t(CV::ConnID{ c }, CV::PhaseID{ p }) = v;
            else if (what == 1) t(CV::ConnID{ c }, CV::PhaseID{ p }) += v;
            else { const CV& k2 = t; got = integer(k2(CV::ConnID{ c }, CV::PhaseID{ p })); }
        }
        catch (const std::logic_error&) { res = 1; }
        catch (...) { res = 3; }
        auto small = [](std::size_t x) { return (long long)std::min<std::size_t>(x, 1999999999); };
        o << "{\"op\":\"" << (what == 0 ? "set" : what == 1 ? "add" : "get") << "\",\"s\":" << s << ",\"c\":" << small(c) << ",\"p\":" << small(p) << ",\"v\":" << got << ",\"res\":" << res;
        look();
    }
    out << "{\"kind\":\"tab\",\"id\":" << id << ",\"ops\":[" << o.str() << "]}\n";
    ++counters["table_histories"];
}

void idsRecord(long long id, Rng& rng) {
    const auto t = texts(rng, rng.range(2, 7));
    auto codes = [](const std::string& s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return v; };
    std::vector<FD::CellSetID> ids;
    for (const auto& s : t) ids.emplace_back(s);
    if (rng.below(2)) { auto c = ids; ids = c; }
    out << "{\"kind\":\"ids\",\"id\":" << id << ",\"text\":[";
    for (std::size_t k = 0; k < t.size(); ++k) out << (k ? "," : "") << list(codes(t[k]));
    out << "],\"back\":[";
    for (std::size_t k = 0; k < t.size(); ++k) out << (k ? "," : "") << list(codes(ids[k].to_string()));
    out << "],\"less\":[";
    for (std::size_t a = 0; a < t.size(); ++a) {
        std::vector<int> v;
        for (std::size_t b = 0; b < t.size(); ++b) v.push_back(ids[a] < ids[b] ? 1 : 0);
        out << (a ? "," : "") << list(v);
    }
    out << "]}\n";
    if (!FD::CellSetID().to_string().empty()) std::cout << "MISMATCH C21 " << id << " default-id a default ID has text\n";
    ++counters["id_tables"];
}

void graphRecord(long long id, Rng& rng) {
    const int big = rng.below(40) == 0, huge = big && rng.below(5) == 0;
    const bool mid = !big && rng.below(4) == 0;
    const int n = big ? rng.range(1000, 100000) : mid ? rng.range(5, 60) : rng.below(8);
    int len = huge ? rng.range(9000, 22000) : big ? rng.range(500, 900) : mid ? rng.range(12, 140) : rng.below(12);
    std::vector<int> cc(len);
    for (auto& x : cc) x = n ? rng.below(n) : 0;
    const int fault = rng.below(8);
    if (fault < 6 && len % 2) cc.push_back(n ? rng.below(n) : 0);
    // often right at one of the ends
    auto where = [&]() { const int s = (int)cc.size(), q = rng.below(6); return q == 0 ? 0 : q == 1 ? s - 1 : q == 2 ? std::max(0, s - 2) : rng.below(s); };
    if (!cc.empty() && fault == 0) cc[where()] = n;
    if (!cc.empty() && fault == 1) cc[where()] = -1 - rng.below(3);
    if (!cc.empty() && fault == 2) cc[where()] = rng.below(2) ? 2000000000 : n + rng.below(5);
    if (!cc.empty() && n && fault == 3) { cc[rng.below((int)cc.size())] = n - 1; cc[rng.below((int)cc.size())] = 0; }
    int res = 0;
    std::size_t nc = 0, m = 0;
    std::vector<std::pair<int, int>> conn;
    try {
        FD::ConnectivityGraph g0(n, cc);
        FD::ConnectivityGraph g = rng.below(2) ? g0 : FD::ConnectivityGraph(std::move(g0));
        nc = g.numCells(); m = g.numConnections();
        for (std::size_t k = 0; k < m && k < 100000; ++k) { const auto q = g.connection(k); conn.emplace_back(q.first, q.second); }
    }
    catch (const std::logic_error&) { res = 1; }
    catch (...) { res = 3; }
    out << "{\"kind\":\"graph\",\"id\":" << id << ",\"n\":" << n << ",\"cc\":" << list(cc) << ",\"res\":" << res << ",\"nc\":" << std::min<std::size_t>(nc, 1999999999) << ",\"m\":" << std::min<std::size_t>(m, 1999999999) << ",\"conn\":[";
    for (std::size_t k = 0; k < conn.size(); ++k) out << (k ? "," : "") << '[' << conn[k].first << ',' << conn[k].second << ']';
    out << "]}\n";
    ++counters["graphs"];
}

// ------------------------------------------------------------------ random samples
struct Call { bool normal; int n, max, mean, sd; };
struct CallOut { std::vector<long long> v; };

long long micro(double x) { return std::isfinite(x) && std::fabs(x) < 2000 ? (long long)std::llround(x * 1e6) : BADV; }

std::vector<long long> sampleOf(Opm::RandomVector& g, const Call& c, bool standard) {
    std::vector<long long> r;
    if (c.normal) {
        const auto s = standard ? g.normal(c.n) : g.normal(c.n, c.mean, c.sd);
        for (double x : s) r.push_back(micro(x));
    }
    else for (int x : g.index(c.n, c.max)) r.push_back(x);
    return r;
}

void randRecord(long long id, Rng& rng) {
    std::vector<Call> cs;
    const int n = rng.range(1, 8);
    for (int k = 0; k < n; ++k) {
        Call c;
        c.normal = rng.below(2);
        c.n = rng.below(6) ? rng.below(12) : rng.range(30, 120);
        const int m = rng.below(6);
        c.max = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? 2147483647 : m == 3 ? rng.range(60000, 70000) : rng.range(2, 1000);
        c.mean = rng.range(-20, 20); c.sd = rng.range(1, 9);
        cs.push_back(c);
    }
    Opm::RandomVector a, z;
    std::unique_ptr<Opm::RandomVector> b(new Opm::RandomVector);
    std::vector<std::vector<long long>> oa, ob, oz;
    for (const auto& c : cs) {
        oa.push_back(sampleOf(a, c, false));
        if (rng.below(2)) { Opm::RandomVector other; other.index(rng.below(9), 5); other.normal(3); }
        oz.push_back(sampleOf(z, c, true));
        while (ob.size() < oa.size() && rng.below(2)) ob.push_back(sampleOf(*b, cs[ob.size()], false));
    }
    while (ob.size() < cs.size()) ob.push_back(sampleOf(*b, cs[ob.size()], false));
    auto put = [&](const std::vector<std::vector<long long>>& o) {
        for (std::size_t k = 0; k < cs.size(); ++k) {
            out << (k ? "," : "") << "{\"kind\":\"" << (cs[k].normal ? "normal" : "index") << "\",\"n\":" << cs[k].n << ",\"max\":" << cs[k].max << ",\"mean\":" << cs[k].mean << ",\"sd\":" << cs[k].sd
                << ",\"out\":" << list(o[k]) << ",\"z\":" << list(oz[k]) << "}";
        }
    };
    out << "{\"kind\":\"rand\",\"id\":" << id << ",\"a\":["; put(oa); out << "],\"b\":["; put(ob); out << "]}\n";
    ++counters["random_histories"];
}

void glueRecord(long long id, Rng& rng) {
    const bool normal = rng.below(2);
    Opm::RandomVector a, b;
    const int lead = rng.below(3);
    for (int k = 0; k < lead; ++k) { a.index(3, 9); b.index(3, 9); }
    Call c{ normal, 0, rng.below(3) ? rng.range(1, 100000) : 2147483647, 3, 2 };
    std::vector<Call> parts; std::vector<std::vector<long long>> po;
    int tot = 0;
    const int np = rng.range(1, 5);
    for (int k = 0; k < np; ++k) { Call d = c; d.n = normal ? 2 * rng.below(6) : rng.below(9); tot += d.n; parts.push_back(d); po.push_back(sampleOf(a, d, false)); }
    c.n = tot;
    const auto whole = sampleOf(b, c, false);
    auto one = [&](const Call& d, const std::vector<long long>& v) {
        out << "{\"kind\":\"" << (normal ? "normal" : "index") << "\",\"n\":" << d.n << ",\"max\":" << d.max << ",\"out\":" << list(v) << "}";
    };
    out << "{\"kind\":\"glue\",\"id\":" << id << ",\"parts\":[";
    for (std::size_t k = 0; k < parts.size(); ++k) { if (k) out << ','; one(parts[k], po[k]); }
    out << "],\"whole\":"; one(c, whole); out << "}\n";
    ++counters["random_glued"];
}

void spreadRecord(long long id, Rng& rng) {
    Opm::RandomVector g;
    const int max = rng.range(0, 12);
    for (int k = rng.below(3); k > 0; --k) g.normal(5);
    const auto s = g.index(4000, max), t = g.index(4000, max);
    std::set<int> d(s.begin(), s.end());
    out << "{\"kind\":\"spread\",\"id\":" << id << ",\"max\":" << max << ",\"lo\":" << *d.begin() << ",\"hi\":" << *d.rbegin() << ",\"distinct\":" << d.size() << ",\"repeat\":" << (max > 0 && s == t ? 1 : 0) << "}\n";
    const int maxs[] = { 100000, 1000000, 65535, 65536, 2147483647, 70000 };
    const int mx = maxs[rng.below(6)];
    const auto u = g.index(3000, mx), v = g.index(3000, mx);
    std::vector<int> bins(10, 0); int inside = 1;
    for (int x : u) { if (x < 0 || x > mx) inside = 0; else ++bins[std::min(9, (int)(10.0 * x / (double(mx) + 1.0)))]; }
    out << "{\"kind\":\"wide\",\"id\":" << id << ",\"bins\":" << list(bins) << ",\"inside\":" << inside << ",\"repeat\":" << (u == v ? 1 : 0) << "}\n";
    // Both ends of a wide range are attained, if only rarely.
    const int ends[] = { 255, 256, 4095, 32767, 32768, 65535, 65536, 70000, 99999, 100000, 131071 };
    const int top = rng.below(12) == 0 ? 1000000 + rng.below(400000) : ends[rng.below(11)];
    int lo = top, hi = 0;
    for (long long q = 0; q < 60ll * top && (lo > 0 || hi < top); q += 100000)
        for (int i : g.index(100000, top)) { lo = std::min(lo, i); hi = std::max(hi, i); }
    out << "{\"kind\":\"ends\",\"id\":" << id << ",\"max\":" << top << ",\"lo\":" << lo << ",\"hi\":" << hi << "}\n";
    const int m = rng.range(-5, 5), sd = rng.range(1, 7);
    const auto x = g.normal(20000, m, sd), y = g.normal(20000, m, sd);
    double mu = 0, va = 0;
    for (double q : x) mu += q;
    mu /= x.size();
    for (double q : x) va += (q - mu) * (q - mu);
    va = std::sqrt(va / x.size());
    auto milli = [](double q) { return std::isfinite(q) && std::fabs(q) < 1e6 ? (long long)std::llround(q * 1000) : BADV; };
    out << "{\"kind\":\"moment\",\"id\":" << id << ",\"m\":" << m << ",\"sd\":" << sd << ",\"mean\":" << milli(mu) << ",\"dev\":" << milli(va) << ",\"repeat\":" << (x == y ? 1 : 0) << "}\n";
    ++counters["random_statistics"];
}

} // namespace

int main(int argc, char** argv) {
    const std::uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const int part = std::atoi(opt(argc, argv, "--part", "0")), parts = std::atoi(opt(argc, argv, "--parts", "1"));
    const long long only = std::atoll(opt(argc, argv, "--only", "-1"));
    Progress pr; pr.open(opt(argc, argv, "--progress", ""));
    std::set<std::string> want;
    {
        std::stringstream ss(opt(argc, argv, "--props", "")); std::string t;
        while (std::getline(ss, t, ',')) if (!t.empty()) want.insert(t);
    }
    auto w = [&](const char* p) { return want.empty() || want.count(p); };
    const std::string pre = opt(argc, argv, "--out", "");
    out.open(pre.empty() ? "/dev/null" : pre + "." + std::to_string(part));
    const long long nr = std::atoll(opt(argc, argv, "--rnd", "500"));
    const long long exh = std::atoll(opt(argc, argv, "--exh", "2000"));
    long long k = -1;
    auto each = [&](const char* prop, const char* what, long long n, const std::function<void(long long, Rng&, long long)>& f) {
        if (!w(prop)) return;
        for (long long q = 0; q < n; ++q) {
            ++k;
            if (only >= 0 ? k != only : k % parts != part) continue;
            pr.at(k, what);
            Rng rng(seed * 1299709 + k);
            f(k, rng, q);
        }
    };
    each("C20", "solution sequence", exh, [&](long long id, Rng& r, long long q) {
        const long long total = 10000;
        long long z = exh >= total ? q % total : (q * 7919 + (long long)seed * 31) % total;
        std::vector<int> l;
        for (int i = 0; i < 4; ++i) { l.push_back((int)(z % 10)); z /= 10; }
        solHistory(id, r, &l);
    });
    each("C20", "solution walk", nr, [&](long long id, Rng& r, long long) { solHistory(id, r, nullptr); });
    each("C21", "cell set", nr, [&](long long id, Rng& r, long long) { setHistory(id, r); });
    each("C21", "table", nr, [&](long long id, Rng& r, long long) { tabHistory(id, r); });
    each("C21", "ids", nr, [&](long long id, Rng& r, long long) { idsRecord(id, r); });
    each("C21", "graph", 2 * nr, [&](long long id, Rng& r, long long) { graphRecord(id, r); });
    each("C23", "random", nr, [&](long long id, Rng& r, long long) { randRecord(id, r); });
    each("C23", "random glue", nr, [&](long long id, Rng& r, long long) { glueRecord(id, r); });
    each("C23", "random spread", nr / 10, [&](long long id, Rng& r, long long) { spreadRecord(id, r); });
    for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
    std::cout << "DONE 0\n";
    return 0;
}
