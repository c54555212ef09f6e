// F-Phi curves, Lorenz coefficients and sweep curves of inputs of any
// magnitude, recorded exactly for spec/CurveTrace.tla.
#include "flowcase.hpp"
#include "dyadic.hpp"

namespace {

std::map<std::string, long long> counters;
typedef std::vector<double> D;

double mag(Rng& g, double lo, double hi) {
    const double u = (g.next() >> 11) * (1.0 / 9007199254740992.0);
    return std::pow(10.0, lo + (hi - lo) * u);
}
// at most 30 significant bits: sums of two such numbers of similar size are exact
double coarse(double x) { int e; const double m = std::frexp(x, &e); return std::ldexp(std::nearbyint(std::ldexp(m, 30)), e - 30); }

bool finite(const D& v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }
bool same(const FD::Graph& a, const FD::Graph& b) {
    if (a.first.size() != b.first.size() || a.second.size() != b.second.size()) return false;
    for (std::size_t k = 0; k < a.first.size(); ++k)
        if (!(std::fabs(a.first[k] - b.first[k]) <= 1e-11 && std::fabs(a.second[k] - b.second[k]) <= 1e-11)) return false;
    return true;
}
FD::Graph viaSolutions(const D& a, const D& b, const D& pv, double fr) {
    FD::Solution s, t;
    D x = a, y = b;
    s.assignGlobalToF(std::move(x)); t.assignGlobalToF(std::move(y));
    return FD::flowCapacityStorageCapacityCurve(FD::Toolbox::Forward{ s }, FD::Toolbox::Reverse{ t }, pv, fr);
}

std::string sweep(const std::string& id, const FD::Graph& g, bool fphi, bool clear) {
    std::string o = "{\"kind\":\"sweep\",\"id\":\"" + id + "\"";
    double L = NAN; FD::Graph s;
    bool fit = true;
    try { L = FD::lorenzCoefficient(g); s = FD::sweepEfficiency(g); } catch (const std::exception&) { fit = false; }
    fit = fit && std::isfinite(L) && finite(s.first) && finite(s.second);
    o += std::string(",\"fit\":") + (fit ? "1" : "0") + ",\"fphi\":" + (fphi ? "1" : "0") + ",\"clear\":" + (clear ? "1" : "0");
    o += ",\"phi\":"; nums(o, g.first); o += ",\"f\":"; nums(o, g.second);
    if (!fit) { L = 0; s = FD::Graph(); }
    o += ",\"lorenz\":"; dy(o, L);
    o += ",\"td\":"; nums(o, s.first); o += ",\"ev\":"; nums(o, s.second);
    ++counters["sweeps"];
    return o + "}\n";
}

void curve(std::ostream& out, long long k, Rng& g, bool c16, bool c17) {
    const int n = k % 24 == 0 ? g.range(150, 400) : g.range(1, 40);
    const double pr = std::vector<double>{ 0, 1, 3, 6 }[g.below(4)], tr = std::vector<double>{ 0, 1, 4, 12 }[g.below(4)];
    const double pu = std::vector<double>{ 1.0, 1.0, 1e5, 1e-30, std::ldexp(1.0, -500), std::ldexp(1.0, 500) }[g.below(6)];
    const double tu = std::vector<double>{ 1.0, 1e6, 1e8, 1e-5 }[g.below(4)];
    D pv, a, b;
    const bool ties = g.below(2);
    const int mode = g.below(3);
    for (int c = 0; c < n; ++c) {
        pv.push_back(g.below(10) ? pu * mag(g, -pr, 0) : 0.0);
        double t = coarse(tu * mag(g, -tr / 2, tr / 2));
        if (ties && c && g.below(3) == 0) t = a[g.below(c)];
        // how a total is split between the two fields must not matter
        a.push_back(t); b.push_back(0.0);
    }
    for (int c = 0; c < n; ++c) {
        if (mode == 0) std::swap(a[c], b[c]);
        else if (mode == 1 && g.below(2)) { const double h = a[c] / double(1 << g.range(1, 4)); b[c] = h; a[c] -= h; }
    }
    if (g.below(4) == 0) pv[g.below(n)] = pu * n * double(g.range(1, 50));
    double tot = 0; for (double x : pv) tot += x;
    double fr = 1.0;
    if (g.below(2)) {
        fr = g.below(3) ? std::vector<double>{ 0.1, 0.3, 0.5, 0.75, 0.9 }[g.below(5)]
                        : double(g.range(2, 40)) / 10.0 / n;     // around the mean pore volume
        for (double x : pv) if (std::fabs(x - fr * tot) < 1e-9 * tot) fr = 1.0;
    }
    double cnt = 0;
    for (double x : pv) if (x <= fr * tot) cnt += x;
    if (!(cnt > 0)) { pv.assign(n, pu); fr = 1.0; }
    const FD::Graph q = g.below(2) ? FD::flowCapacityStorageCapacityCurve(a, b, pv, fr) : viaSolutions(a, b, pv, fr);
    const bool fit = q.first.size() == std::size_t(n + 1) && q.second.size() == q.first.size() && finite(q.first) && finite(q.second);
    tot = 0; for (double x : pv) tot += x;
    cnt = 0; for (double x : pv) if (x <= fr * tot) cnt += x;
    // Which cell may stand behind which increment.
    std::vector<int> ord, zero, busy;
    for (int c = 0; c < n; ++c) (pv[c] > 0 && pv[c] <= fr * tot ? busy : zero).push_back(c);
    std::sort(busy.begin(), busy.end(), [&](int x, int y) { return a[x] + b[x] < a[y] + b[y]; });
    double least = 1.0; bool spaced = true;
    std::size_t nb = 0;
    for (int i = 0; fit && i < n; ++i) {
        const double dp = q.first[i + 1] - q.first[i], df = q.second[i + 1] - q.second[i];
        if ((dp == 0.0 || nb == busy.size()) && !zero.empty()) { ord.push_back(zero.back() + 1); zero.pop_back(); continue; }
        if (nb == busy.size()) break;
        std::size_t best = nb;
        const double t = a[busy[nb]] + b[busy[nb]];
        for (std::size_t j = nb; j < busy.size() && a[busy[j]] + b[busy[j]] == t; ++j)
            if (std::fabs(pv[busy[j]] / cnt - dp) < std::fabs(pv[busy[best]] / cnt - dp)) best = j;
        std::swap(busy[nb], busy[best]);
        if (nb && !(t > 1.0001 * (a[busy[nb - 1]] + b[busy[nb - 1]]))) spaced = false;
        ord.push_back(busy[nb++] + 1);
        least = std::min(least, std::min(dp, df));
    }
    bool eq = true;
    if (fit) {
        const auto p = g.perm(n);
        D pv2(n), a2(n), b2(n);
        for (int c = 0; c < n; ++c) { pv2[p[c]] = pv[c]; a2[p[c]] = a[c]; b2[p[c]] = b[c]; }
        eq = same(q, FD::flowCapacityStorageCapacityCurve(b2, a2, pv2, fr)) && same(q, viaSolutions(a2, b2, pv2, fr));
    }
    if (c16) {
        std::string o = "{\"kind\":\"fphi\",\"id\":\"c" + std::to_string(k) + "\",\"fit\":" + (fit ? "1" : "0") + ",\"same\":" + (eq ? "1" : "0");
        o += ",\"pv\":"; nums(o, pv); o += ",\"a\":"; nums(o, a); o += ",\"b\":"; nums(o, b); o += ",\"fr\":"; dy(o, fr);
        o += ",\"ord\":"; ints(o, ord);
        o += ",\"phi\":"; nums(o, fit ? q.first : D()); o += ",\"f\":"; nums(o, fit ? q.second : D());
        out << o << "}\n";
        ++counters["curves"];
        if (fr < 1.0) ++counters["curves_with_limit"];
    }
    if (c17 && fit) {
        const bool clear = spaced && least > 1e-10;
        if (clear) ++counters["clearly_concave"];
        out << sweep("s" + std::to_string(k), q, true, clear);
    }
}

void freeCurve(std::ostream& out, long long k, Rng& g) {
    const int n = g.range(1, 40);
    const double range = std::vector<double>{ 1, 6, 12, 18, 200 }[g.below(5)];
    D p{ 0.0 }, f{ 0.0 };
    std::vector<double> dp, df;
    for (int i = 0; i < n; ++i) {
        dp.push_back(g.below(5) ? mag(g, -range, 0) : 0.0);
        df.push_back(g.below(5) ? mag(g, -range, 0) : 0.0);
    }
    if (g.below(2)) { std::sort(dp.begin(), dp.end()); std::sort(df.begin(), df.end()); }
    for (int i = 0; i < n; ++i) { p.push_back(p.back() + dp[i]); f.push_back(f.back() + df[i]); }
    if (p.back() == 0) p.back() = 1;
    if (f.back() == 0) f.back() = 1;
    FD::Graph q;
    for (double x : p) q.first.push_back(x / p.back());
    for (double x : f) q.second.push_back(x / f.back());
    out << sweep("f" + std::to_string(k), q, false, false);
}

} // namespace

int main(int argc, char** argv) {
    const std::uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const int part = std::atoi(opt(argc, argv, "--part", "0")), parts = std::atoi(opt(argc, argv, "--parts", "1"));
    const long long only = std::atoll(opt(argc, argv, "--only", "-1"));
    const long long num = std::atoll(opt(argc, argv, "--num", "300"));
    const std::string props = opt(argc, argv, "--props", "C16,C17");
    const bool c16 = props.find("C16") != std::string::npos, c17 = props.find("C17") != std::string::npos;
    Progress pr; pr.open(opt(argc, argv, "--progress", ""));
    std::ofstream out(std::string(opt(argc, argv, "--out", "/dev/null")) + "." + std::to_string(part));
    for (long long k = 0; k < num; ++k) {
        if (only >= 0 ? k != only : k % parts != part) continue;
        pr.at(k);
        Rng g(seed * 2750159 + k * 2654435761ull + 5);
        curve(out, k, g, c16, c17);
        if (c17) freeCurve(out, k, g);
        ++counters["records"];
    }
    for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
    std::cout << "DONE 0\n";
    return 0;
}
