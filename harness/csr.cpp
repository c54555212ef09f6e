// Drives AssembledConnections through histories of collecting and compressing,
// prints graphs to streams of all formats, and records everything observable.
// The records are judged by TLC (spec/CsrTrace.tla).
#include "common.hpp"

#include <opm/utility/graph/AssembledConnections.hpp>

#include <iomanip>
#include <limits>

using namespace vf;
using AC = Opm::AssembledConnections;

namespace {

std::ofstream out;
std::map<std::string, long long> counters;

struct E { int i, j, w; };   // weight in units

const int BADW = 1999999999;

// Projection of a weight to integer units; BADW if it is not a multiple.
int units(double x, double unit) {
    if (!std::isfinite(x)) return BADW;
    const double q = x / unit, r = std::nearbyint(q);
    if (std::fabs(q - r) > 1e-10 * std::max(1.0, std::fabs(q)) || std::fabs(r) > 1e9) return BADW;
    return (int)r;
}

template <class V> void list(std::ostream& o, const V& v) { o << '['; bool f = true; for (const auto& x : v) { if (!f) o << ','; o << x; f = false; } o << ']'; }

struct Driver {
    AC ac;
    double unit;
    std::vector<E> pend, edges;    // the driver's own copy, for certificates only
    bool has = false, weighted = false, mixed = false, pw = false, pu = false;
    std::ostringstream o;
    bool first = true;
    explicit Driver(double u) : unit(u) {}

    void sep() { if (!first) o << ','; first = false; }

    void adds(const std::vector<E>& es, bool wt) {
        for (const auto& e : es) {
            if (wt) ac.addConnection(e.i, e.j, e.w * unit); else ac.addConnection(e.i, e.j);
            pend.push_back(e);
        }
        (wt ? pw : pu) = (wt ? pw : pu) || !es.empty();
        sep();
        o << "{\"op\":\"add\",\"wt\":" << (wt ? 1 : 0) << ",\"e\":[";
        bool f = true;
        for (const auto& e : es) { if (!f) o << ','; o << '[' << e.i << ',' << e.j << ',' << (wt ? e.w : 0) << ']'; f = false; }
        o << "]"; look(); o << "}";
    }

    void compress(std::size_t n) {
        int res = 0;
        try { ac.compress(n); }
        catch (const std::invalid_argument&) { res = 1; }
        catch (const std::logic_error&) { res = 2; }
        catch (const std::exception&) { res = 3; }
        sep();
        o << "{\"op\":\"compress\",\"n\":" << n << ",\"res\":" << res;
        if (res == 0) { edges = pend; weighted = pw; has = true; pend.clear(); pw = pu = false; }
        look();
        o << "}";
    }

    // Replace the object by a new one (as the toolbox does), or by a copy.
    void fresh() { ac = AC(); pend.clear(); edges.clear(); has = weighted = pw = pu = false; sep(); o << "{\"op\":\"fresh\""; look(); o << "}"; }
    void copy() { AC b = ac; AC c; c.addConnection(3, 4, 5.0); c.compress(9); c = b; ac = c; sep(); o << "{\"op\":\"copy\""; look(); o << "}"; }

    // Everything that can be seen of the last compressed graph.
    void look() {
        o << ",\"seen\":" << (has ? 1 : 0);
        if (!has) return;
        const auto& ia = ac.startPointers(); const auto& ja = ac.neighbourhood(); const auto& sa = ac.connectionWeight();
        o << ",\"nr\":" << ac.numRows() << ",\"ia\":"; list(o, ia); o << ",\"ja\":"; list(o, ja);
        std::vector<int> w; for (double x : sa) w.push_back(units(x, unit));
        o << ",\"sa\":"; list(o, w);
        // the neighbourhood ranges
        const bool ranges = weighted || ja.empty();
        o << ",\"nb\":[";
        std::vector<int> nw;
        if (ranges) {
            for (std::size_t r = 0; r < ac.numRows(); ++r) {
                o << (r ? ",[" : "[");
                bool f = true;
                for (const auto& c : ac.cellNeighbourhood((int)r)) { if (!f) o << ','; o << c.neighbour; f = false; nw.push_back(units(c.weight, unit)); }
                o << ']';
            }
        }
        o << "],\"nw\":"; list(o, nw); o << ",\"ranges\":" << (ranges ? 1 : 0);
        // certificate
        std::map<std::pair<int, int>, std::vector<int>> grp;
        for (std::size_t k = 0; k < edges.size(); ++k) grp[{ edges[k].i, edges[k].j }].push_back((int)k + 1);
        o << ",\"grp\":[";
        bool f = true;
        for (std::size_t r = 0; r + 1 < ia.size(); ++r)
            for (std::size_t p = ia[r]; p < ia[r + 1] && p < ja.size(); ++p) {
                if (!f) o << ',';
                f = false;
                auto it = grp.find({ (int)r, ja[p] });
                if (it == grp.end()) o << "[]"; else { list(o, it->second); grp.erase(it); }   // (a second entry has none left)
            }
        o << "]";
    }

    void done(long long id, bool big) {
        out << "{\"id\":" << id << ",\"kind\":\"hist\",\"big\":" << (big ? 1 : 0) << ",\"ops\":[" << o.str() << "]}\n";
        ++counters["histories"];
    }
};

const double unitsOf[] = { 1.0, 0.1, 1.0e-3 / 3.0, 7.0e8 / 3.0 };

// All sequences of operations from a small alphabet, numbered.
const int ALPHA = 7, DEPTH = 5;
void letters(Driver& d, int a, int step) {
    switch (a) {
    case 0: d.adds({ { 0, 1, 1 + step } }, true); break;
    case 1: d.adds({ { 2, 0, 3 }, { 0, 1, 5 }, { 2, 0, 2 } }, true); break;
    case 2: d.adds({ { 1, 1, 0 }, { 1, 0, 0 } }, false); break;
    case 3: d.compress(1); break;
    case 4: d.compress(2); break;
    case 5: d.compress(4); break;
    case 6: d.compress(3); break;
    }
}

std::vector<E> randomEdges(Rng& rng, int m, int ni, int nj, bool neg) {
    std::vector<E> e;
    for (int k = 0; k < m; ++k) {
        if (!e.empty() && rng.below(3) == 0) e.push_back(e[rng.below((int)e.size())]);
        else e.push_back({ rng.below(ni), rng.below(nj), 0 });
        e.back().w = rng.range(neg ? -9 : 1, 12);
    }
    return e;
}

void randomHistory(long long id, Rng& rng) {
    Driver d(unitsOf[rng.below(4)]);
    const int len = 2 + rng.below(9);
    const int style = rng.below(4);          // mostly weighted, mostly not, sometimes mixed
    for (int k = 0; k < len; ++k) {
        const int a = rng.below(10);
        if (a < 5) {
            const int ni = 1 + rng.below(8), nj = 1 + rng.below(8);
            const bool wt = style == 0 ? true : style == 1 ? false : style == 2 ? (d.pend.empty() ? rng.below(2) : d.pw) : rng.below(5) != 0;
            d.adds(randomEdges(rng, rng.below(12), ni, nj, rng.below(3) == 0), wt);
        }
        else if (a < 9) {
            int mx = -1; for (const auto& e : d.pend) mx = std::max(mx, e.i);
            int n = mx + 1 + (rng.below(3) ? 0 : rng.below(5));
            if (rng.below(4) == 0) n = rng.below(mx + 2);
            d.compress(n);
        }
        else if (rng.below(2)) d.fresh();
        else d.copy();
    }
    int mx = -1; for (const auto& e : d.pend) mx = std::max(mx, e.i);
    d.compress(mx + 1 + rng.below(2));
    d.done(id, false);
}

void largeHistory(long long id, Rng& rng, int m) {
    Driver d(unitsOf[rng.below(4)]);
    const int graphs = 1 + rng.below(2);
    for (int g = 0; g < graphs; ++g) {
        const int ni = 1 + rng.below(rng.below(2) ? 20 : m), nj = 1 + rng.below(rng.below(2) ? 20 : m);
        d.adds(randomEdges(rng, m / (1 + g), ni, nj, false), true);
        d.compress(ni + rng.below(3));
    }
    d.done(id, true);
}

// ---------------------------------------------------------------- printing
double someWeight(Rng& rng) {
    switch (rng.below(8)) {
    case 0: return 1.0;
    case 1: return 0.1 * rng.range(-20, 20);
    case 2: return std::numeric_limits<double>::denorm_min() * (1 + rng.below(1000));
    case 3: return std::numeric_limits<double>::max() / (32 + rng.below(3));
    case 4: return std::ldexp(1.0 + double(rng.next() >> 12) / 4503599627370496.0, rng.range(-1000, 1000));
    case 5: return -std::ldexp(1.0 + double(rng.next() >> 12) / 4503599627370496.0, rng.range(-40, 40));
    case 6: return 1.0 / 3.0 * (1 + rng.below(100));
    default: return std::ldexp(1.0 + double(rng.next() >> 12) / 4503599627370496.0, rng.range(-3, 60));
    }
}

void printing(long long id, Rng& rng) {
    AC ac;
    const int n = rng.below(7);
    const int m = n == 0 ? 0 : rng.below(14);
    for (int k = 0; k < m; ++k) ac.addConnection(rng.below(n), rng.below(9), someWeight(rng));
    ac.compress(n + rng.below(3));
    if (m == 0 && ac.numRows() == 0 && rng.below(2)) ac.compress(2);
    if (ac.numRows() == 0) ++counters["printed_no_rows"];
    std::ostringstream os;
    // initial format
    const int ff = rng.below(4);
    if (ff == 1) os.setf(std::ios_base::fixed, std::ios_base::floatfield);
    if (ff == 2) os.setf(std::ios_base::scientific, std::ios_base::floatfield);
    if (ff == 3) os.setf(std::ios_base::fixed | std::ios_base::scientific, std::ios_base::floatfield);
    const int prec = rng.below(4) == 0 ? 6 : rng.below(25);
    os.precision(prec);
    bool plain = true;
    if (rng.below(3) == 0) os.setf(std::ios_base::showpos);
    if (rng.below(3) == 0) os.setf(std::ios_base::uppercase);
    if (rng.below(3) == 0) os.setf(std::ios_base::showpoint);
    if (rng.below(3) == 0) os.setf(std::ios_base::boolalpha);
    if (rng.below(4) == 0) os.setf(rng.below(2) ? std::ios_base::left : std::ios_base::internal, std::ios_base::adjustfield);
    if (rng.below(4) == 0) os.setf(std::ios_base::unitbuf);
    if (rng.below(6) == 0) { os.setf(rng.below(2) ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield); plain = false; }
    const auto f0 = os.flags();
    const int times = 1 + rng.below(2);
    for (int t = 0; t < times; ++t) os << ac;
    const auto f1 = os.flags();
    const int p1 = (int)os.precision();
    // the text, token by token
    std::istringstream is(os.str());
    std::string line;
    std::ostringstream ls; bool f = true;
    // expected weights in order, for the comparison of read-back values
    const auto& sa = ac.connectionWeight();
    std::size_t pos = 0;
    while (std::getline(is, line)) {
        std::istringstream l(line); std::vector<std::string> tok; std::string t;
        while (l >> t) tok.push_back(t);
        int s = -1, k = -1, w = 0;
        if (tok.size() == 3) {
            char* e = nullptr;
            s = (int)std::strtol(tok[0].c_str(), &e, 10); if (*e) s = -1;
            k = (int)std::strtol(tok[1].c_str(), &e, 10); if (*e) k = -1;
            const double x = std::strtod(tok[2].c_str(), &e);
            const bool decimal = tok[2].find_first_not_of("0123456789+-.eE") == std::string::npos;
            if (!*e && decimal && !sa.empty() && x == sa[pos % sa.size()]) w = 1;
        }
        ++pos;
        if (!f) ls << ',';
        f = false;
        ls << '[' << s << ',' << k << ',' << w << ']';
    }
    const std::string text = os.str();
    out << "{\"id\":" << id << ",\"kind\":\"print\",\"plain\":" << (plain ? 1 : 0) << ",\"times\":" << times
        << ",\"flags0\":" << (int)f0 << ",\"flags1\":" << (int)f1 << ",\"prec0\":" << prec << ",\"prec1\":" << p1
        << ",\"good\":" << (os.good() ? 1 : 0)
        << ",\"endl\":" << ((text.empty() || text.back() == '\n') ? 1 : 0)
        << ",\"ia\":"; list(out, ac.startPointers()); out << ",\"ja\":"; list(out, ac.neighbourhood());
    out << ",\"lines\":[" << ls.str() << "]}\n";
    ++counters["printed"];
    if (m) ++counters["printed_nonempty"];
}

} // namespace

int main(int argc, char** argv) {
    const std::uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const int part = std::atoi(opt(argc, argv, "--part", "0")), parts = std::atoi(opt(argc, argv, "--parts", "1"));
    const long long only = std::atoll(opt(argc, argv, "--only", "-1"));
    const std::string prop = opt(argc, argv, "--props", "");
    const int exh = std::atoi(opt(argc, argv, "--exh", "4000"));
    const int nrnd = std::atoi(opt(argc, argv, "--rnd", "2000"));
    const int nbig = std::atoi(opt(argc, argv, "--big", "16"));
    const int nprint = std::atoi(opt(argc, argv, "--print", "2000"));
    std::string path = opt(argc, argv, "--out", "");
    path += only >= 0 ? std::string(".only") : "." + std::to_string(part);
    out.open(path);
    if (!out) return 3;
    Progress pr; pr.open(opt(argc, argv, "--progress", ""));
    long long id = 0;
    auto mine = [&](const char* what) {
        const long long k = id++;
        if (only >= 0 ? k != only : (k % parts) != part) return false;
        pr.at(k, what);
        return true;
    };
    if (prop != "C22") {
        int total = 1; for (int k = 0; k < DEPTH; ++k) total *= ALPHA;
        const int step = exh >= total ? 1 : (total / std::max(1, exh)) | 1;
        for (int x = (int)(seed % step); x < total; x += step) {
            if (!mine("enumerated history")) continue;
            Driver d(unitsOf[x % 4]);
            int y = x;
            for (int k = 0; k < DEPTH; ++k, y /= ALPHA) letters(d, y % ALPHA, k);
            d.compress(3);
            d.done(id - 1, false);
        }
        for (int i = 0; i < nrnd; ++i) { if (!mine("random history")) continue; Rng rng(seed * 86028121 + id); randomHistory(id - 1, rng); }
        for (int i = 0; i < nbig; ++i) { if (!mine("large graph")) continue; Rng rng(seed * 122949823 + id); largeHistory(id - 1, rng, i % 4 == 3 ? 4000 : 700); }
        // the same connection again and again, among others
        for (int i = 0; i < 12; ++i) {
            if (!mine("repeated connections")) continue;
            Rng rng(seed * 179424673 + id);
            Driver d(unitsOf[rng.below(4)]);
            const int runs = 1 + rng.below(4), nv = 2 + rng.below(30);
            std::vector<E> e;
            for (int r = 0; r < runs; ++r) {
                const int a = rng.below(nv), b = rng.below(nv);
                const int len = i == 11 ? 70000 : i >= 9 ? rng.range(1000, 5000) : rng.range(2, 700);
                for (int k = 0; k < len; ++k) {
                    e.push_back({ a, b, rng.range(1, 9) });
                    if (i % 3 == 0 && rng.below(4) == 0) e.push_back({ rng.below(nv), rng.below(nv), rng.range(1, 9) });
                }
                if (i == 11) break;
            }
            if (i % 3 == 1) rng.shuffle(e);
            const bool wt = i % 4 != 3;
            if (i % 2) { d.adds({ { 1, 0, 3 } }, wt); d.compress(nv); }
            d.adds(e, wt); d.compress(nv + rng.below(2)); d.done(id - 1, true);
            ++counters["repeated"];
        }
        // many rows, one row with many entries
        if (mine("wide graph")) {
            Driver d(1.0);
            std::vector<E> e; Rng rng(seed);
            for (int k = 0; k < 70000; ++k) e.push_back({ k % 3 == 0 ? 5 : k, (k * 7919) % 70001, 1 + k % 5 });
            d.adds(e, true); d.compress(70005); d.done(id - 1, true);
        }
    }
    else for (int i = 0; i < nprint; ++i) { if (!mine("printing")) continue; Rng rng(seed * 141650939 + id); printing(id - 1, rng); }
    out.close();
    for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
    std::cout << "DONE " << id << "\n";
    return 0;
}
