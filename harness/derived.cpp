// Derived quantities: replays exact curves printed by TLC from
// spec/DerivedGen.tla, and records curves, areas, sweep points and pair
// quantities of random and large inputs for spec/DerivedTrace.tla.
#include "flowcase.hpp"

namespace {

std::set<std::string> want;
long long mism = 0;
std::map<std::string, long long> counters;
std::ofstream out;
void bad(const char* prop, long long k, const char* variant, const std::string& msg) {
    if (!want.empty() && !want.count(prop)) return;
    if (++mism <= 20) std::cout << "MISMATCH " << prop << " " << k << " " << variant << " " << msg << "\n";
}
bool w(const char* p) { return want.empty() || want.count(p); }

template <class V> void list(std::ostream& o, const V& v) { o << '['; bool f = true; for (const auto& x : v) { if (!f) o << ','; o << x; f = false; } o << ']'; }

typedef std::vector<double> D;
struct Got { int res = 0; FD::Graph g; };

template <class F> int outcome(F&& f) {
    try { f(); return 0; }
    catch (const std::logic_error&) { return 1; }
    catch (const std::runtime_error&) { return 2; }
    catch (...) { return 3; }
}

FD::Graph viaSolutions(const D& a, const D& b, const D& pv, double fr, bool useDefault) {
    FD::Solution s, t;
    D x = a, y = b;
    s.assignGlobalToF(std::move(x)); t.assignGlobalToF(std::move(y));
    // Per-ID fields must not matter.
    s.assign(FD::CellSetID("I"), FD::Solution::TimeOfFlight{ { { 0, 7.0 } } });
    const FD::Toolbox::Forward f{ s }; const FD::Toolbox::Reverse r{ t };
    if (useDefault) return FD::flowCapacityStorageCapacityCurve(f, r, pv);
    return FD::flowCapacityStorageCapacityCurve(f, r, pv, fr);
}
FD::Graph direct(const D& a, const D& b, const D& pv, double fr, bool useDefault) {
    if (useDefault) return FD::flowCapacityStorageCapacityCurve(a, b, pv);
    return FD::flowCapacityStorageCapacityCurve(a, b, pv, fr);
}

bool near(double a, double b, double tol) { return std::isfinite(a) && std::fabs(a - b) <= tol; }

bool samePoints(const FD::Graph& a, const FD::Graph& b) {
    if (a.first.size() != b.first.size() || a.second.size() != b.second.size()) return false;
    for (std::size_t k = 0; k < a.first.size(); ++k) if (!near(a.first[k], b.first[k], 1e-11)) return false;
    for (std::size_t k = 0; k < a.second.size(); ++k) if (!near(a.second[k], b.second[k], 1e-11)) return false;
    return true;
}

// ------------------------------------------------------------------ exact cases
void replay(const Val& v, std::uint64_t seed) {
    const long long idx = v[0].i;
    Rng rng(seed * 31337 + idx);
    auto ints = [](const Val& x) { std::vector<long long> r; for (const auto& e : x.v) r.push_back(e.i); return r; };
    const auto pv0 = ints(v[1]), a0 = ints(v[2]), b0 = ints(v[3]), phi = ints(v[5]), f = ints(v[6]), time = ints(v[7]);
    const double fr = double(v[4][0].i) / double(v[4][1].i);
    const bool one = v[4][0].i == v[4][1].i;
    const double tp = double(v[8][0].i), tf = double(v[8][1].i);
    const double lor = double(v[9].i) / (tp * tf);
    const std::size_t n = pv0.size();

    struct Unit { const char* nm; double pu, tu; };
    const Unit us[] = { { "unit", 1, 1 }, { "field", 1, 1.5 * 1048576 }, { "tiny", std::ldexp(1.0, -60), std::ldexp(1.0, 20) }, { "huge", std::ldexp(1.0, 40), std::ldexp(1.0, -10) },
                        { "long-times", 1, MAXTOF / 8 }, { "ultra-volume", std::ldexp(1.0, 200), 1 } };
    FD::Graph base;
    for (const auto& u : us) {
        D pv, a, b;
        for (std::size_t k = 0; k < n; ++k) { pv.push_back(pv0[k] * u.pu); a.push_back(a0[k] * u.tu); b.push_back(b0[k] * u.tu); }
        const auto g = direct(a, b, pv, fr, one && (idx & 1));
        ++counters["curves"];
        if (&u == us) base = g;
        const D &P = g.first, &F = g.second;
        if (P.size() != n + 1 || F.size() != n + 1) { bad("C16", idx, u.nm, "curve has " + S(P.size()) + " and " + S(F.size()) + " values for " + S(n) + " cells"); continue; }
        if (P[0] != 0 || F[0] != 0 || !near(P[n], 1, 1e-12) || !near(F[n], 1, 1e-12)) bad("C16", idx, u.nm, "curve does not run from (0,0) to (1,1)");
        // Non-zero increments, compared per group of equal travel times.
        std::vector<std::pair<double, double>> inc;
        bool mono = true;
        for (std::size_t k = 0; k < n; ++k) {
            const double dp = P[k + 1] - P[k], df = F[k + 1] - F[k];
            if (!(dp >= -1e-15 && df >= -1e-15)) mono = false;
            if (std::fabs(dp) > 1e-9 || std::fabs(df) > 1e-9) inc.emplace_back(dp, df);
            if (!(F[k + 1] >= P[k + 1] - 1e-12)) bad("C16", idx, u.nm, "F below Phi at point " + S(k + 1));
        }
        if (!mono) bad("C16", idx, u.nm, "curve decreases");
        if (inc.size() != time.size()) { bad("C16", idx, u.nm, "number of contributing cells: " + S(inc.size()) + ", expected " + S(time.size())); continue; }
        for (std::size_t k = 0; k < time.size();) {
            std::size_t e = k;
            std::vector<double> gp, gf, xp, xf;
            for (; e < time.size() && time[e] == time[k]; ++e) {
                gp.push_back(inc[e].first); gf.push_back(inc[e].second);
                xp.push_back(double(phi[e + 1] - phi[e]) / tp); xf.push_back(double(f[e + 1] - f[e]) / tf);
            }
            for (auto* z : { &gp, &gf, &xp, &xf }) std::sort(z->begin(), z->end());
            for (std::size_t i = 0; i < gp.size(); ++i)
                if (!near(gp[i], xp[i], 1e-11) || !near(gf[i], xf[i], 1e-11)) { bad("C16", idx, u.nm, "increments (" + S(gp[i]) + "," + S(gf[i]) + ") of a cell with travel time " + S(time[k]) + ", expected (" + S(xp[i]) + "," + S(xf[i]) + ")"); break; }
            k = e;
        }
        if (!samePoints(g, viaSolutions(a, b, pv, fr, one && (idx & 1)))) bad("C16", idx, u.nm, "curve from solutions differs from curve from fields");
        // Renumbering.
        {
            const auto p = rng.perm((int)n);
            D pv2(n), a2(n), b2(n);
            for (std::size_t k = 0; k < n; ++k) { pv2[p[k]] = pv[k]; a2[p[k]] = a[k]; b2[p[k]] = b[k]; }
            if (!samePoints(g, direct(a2, b2, pv2, fr, one && (idx & 1)))) bad("C16", idx, u.nm, "renumbering the cells changes the curve");
            if (!samePoints(g, direct(b2, a2, pv2, fr, false))) bad("C16", idx, u.nm, "the sum of the two times is not what counts");
        }
        // C17 on the exact curve, refined like the code's own.
        FD::Graph ex;
        for (std::size_t k = 0; k < phi.size(); ++k) { ex.first.push_back(phi[k] / tp); ex.second.push_back(f[k] / tf); }
        for (int which = 0; which < 2; ++which) {
            const FD::Graph& q = which ? g : ex;
            const char* nm = which ? u.nm : "exact-curve";
            const double L = FD::lorenzCoefficient(q);
            if (!near(L, lor, 1e-11)) bad("C17", idx, nm, "Lorenz coefficient " + S(L) + ", expected " + S(lor));
            if (!(L >= -1e-12 && L <= 1 + 1e-12)) bad("C17", idx, nm, "Lorenz coefficient " + S(L) + " outside [0,1]");
            const auto s = FD::sweepEfficiency(q);
            const auto& pts = v[10].v;
            if (s.first.size() != pts.size() + 1 || s.second.size() != pts.size() + 1) { bad("C17", idx, nm, "sweep efficiency has " + S(s.first.size()) + " points, expected " + S(pts.size() + 1)); continue; }
            if (s.first[0] != 0 || s.second[0] != 0) bad("C17", idx, nm, "sweep efficiency does not start at (0,0)");
            for (std::size_t k = 0; k < pts.size(); ++k) {
                const double t = double(pts[k][0].i) / double(pts[k][1].i), e = double(pts[k][2].i) / double(pts[k][3].i);
                if (!close(s.first[k + 1], t, 1e-9, 0) || !close(s.second[k + 1], e, 1e-9, 0)) { bad("C17", idx, nm, "sweep point " + S(k + 1) + ": (" + S(s.first[k + 1]) + "," + S(s.second[k + 1]) + "), expected (" + S(t) + "," + S(e) + ")"); break; }
            }
            ++counters["sweeps"];
        }
    }
    ++counters["cases"];
}

// ------------------------------------------------------------------ recorded cases
bool fitAll;
long long proj(double x, double unit) {
    const double q = x * unit, r = std::nearbyint(q);
    if (!(std::fabs(q - r) <= 1e-3) || std::fabs(r) > 2e9) { fitAll = false; return 0; }
    return (long long)r;
}

struct Input { std::vector<int> pv, time; int m, fn, fd; };

void fields(const Input& x, Rng& rng, D& pv, D& a, D& b) {
    for (std::size_t k = 0; k < x.pv.size(); ++k) {
        pv.push_back(x.pv[k]);
        const double s = 0.25 * rng.below(4 * x.time[k] + 1);
        a.push_back(s); b.push_back(x.time[k] - s);
    }
}

void area(long long id, const char* tag, const std::vector<int>& phi, const std::vector<int>& f, int tp, int tf, const FD::Graph& g, bool fphi, long long cells) {
    fitAll = true;
    const double L = FD::lorenzCoefficient(g);
    const auto s = FD::sweepEfficiency(g);
    std::vector<int> up;
    for (std::size_t k = 0; k + 1 < phi.size(); ++k) if (f[k + 1] > f[k]) up.push_back((int)k);
    // Points of one straight piece coincide.
    D td{ s.first.empty() ? -1 : s.first[0] }, ev{ s.second.empty() ? -1 : s.second[0] };
    bool mono = s.first.size() == s.second.size();
    const bool collapse = cells != (long long)up.size();
    for (std::size_t k = 1; k < s.first.size() && k < s.second.size(); ++k) {
        if (!(s.first[k] >= s.first[k - 1] * (1 - 1e-6)) || !(s.second[k] >= s.second[k - 1] - 1e-7)) mono = false;
        if (collapse && k > 1 && close(s.first[k], s.first[k - 1], 1e-6, 0)) continue;
        td.push_back(s.first[k]); ev.push_back(s.second[k]);
    }
    std::vector<long long> tdi{ proj(td[0], 1) }, evi{ proj(ev[0], 1) };
    for (std::size_t k = 1; k < td.size(); ++k) {
        const double u = k - 1 < up.size() ? double(f[up[k - 1] + 1] - f[up[k - 1]]) * tp : 1.0;
        tdi.push_back(proj(td[k], u)); evi.push_back(proj(ev[k], u));
    }
    const long long li = proj(L, double(tp) * tf);
    out << "{\"kind\":\"area\",\"id\":\"" << tag << id << "\",\"phi\":"; list(out, phi); out << ",\"f\":"; list(out, f);
    out << ",\"tp\":" << tp << ",\"tf\":" << tf << ",\"lorenz\":" << li << ",\"fphi\":" << (fphi ? 1 : 0) << ",\"mono\":" << (mono ? 1 : 0)
        << ",\"cells\":" << cells << ",\"raw\":" << (s.first.size() == s.second.size() ? (long long)s.first.size() : -1) << ",\"fit\":" << (fitAll ? 1 : 0)
        << ",\"td\":"; list(out, tdi); out << ",\"ev\":"; list(out, evi); out << "}\n";
    ++counters["areas"];
}

void recordCurve(long long id, const Input& x, Rng& rng) {
    const int n = (int)x.pv.size();
    D pv, a, b; fields(x, rng, pv, a, b);
    const double fr = double(x.fn) / x.fd;
    const auto g = rng.below(2) ? direct(a, b, pv, fr, false) : viaSolutions(a, b, pv, fr, false);
    long long tot = 0, tp = 0, tf = 0;
    for (int p : x.pv) tot += p;
    std::vector<char> cnt(n);
    for (int k = 0; k < n; ++k) {
        cnt[k] = (long long)x.pv[k] * x.fd <= (long long)x.fn * tot;
        if (cnt[k]) { tp += x.pv[k]; tf += (long long)x.pv[k] * (x.m / x.time[k]); }
    }
    fitAll = true;
    std::vector<int> phi, f;
    for (double q : g.first) phi.push_back((int)proj(q, (double)tp));
    for (double q : g.second) f.push_back((int)proj(q, (double)tf));
    // Proposed order: match the increments of the curve to cells.
    std::vector<int> ord;
    if ((int)phi.size() == n + 1 && (int)f.size() == n + 1) {
        std::map<std::pair<int, int>, std::vector<int>> byInc;    // cells by increment
        for (int k = n - 1; k >= 0; --k) byInc[{ cnt[k] ? x.pv[k] : 0, cnt[k] ? x.pv[k] * (x.m / x.time[k]) : 0 }].push_back(k + 1);
        for (int k = 0; k < n; ++k) {
            auto it = byInc.find({ phi[k + 1] - phi[k], f[k + 1] - f[k] });
            if (it == byInc.end() || it->second.empty()) { ord.clear(); break; }
            ord.push_back(it->second.back()); it->second.pop_back();
        }
    }
    // Of the steps without increment, those of counted cells without volume
    // where they belong; cells that are not counted anywhere.
    if ((int)ord.size() == n) {
        std::vector<int> zero, out;
        for (int k = 0; k < n; ++k) if (!cnt[k]) out.push_back(k + 1); else if (x.pv[k] == 0) zero.push_back(k + 1);
        std::stable_sort(zero.begin(), zero.end(), [&](int c, int d) { return x.time[c - 1] > x.time[d - 1]; });
        auto empty = [&](int k) { return phi[k + 1] == phi[k] && f[k + 1] == f[k]; };
        for (int k = 0; k < n; ++k) {
            if (!empty(k)) continue;
            int e = k; while (e < n && empty(e)) ++e;
            const bool late = !zero.empty() && e < n && x.time[zero.back() - 1] > x.time[ord[e] - 1];
            auto& from = zero.empty() || (late && !out.empty()) ? out : zero;
            ord[k] = from.back(); from.pop_back();
        }
    }
    const auto p = rng.perm(n);
    D pv2(n), a2(n), b2(n);
    for (int k = 0; k < n; ++k) { pv2[p[k]] = pv[k]; a2[p[k]] = a[k]; b2[p[k]] = b[k]; }
    const bool same = samePoints(g, direct(a2, b2, pv2, fr, false)) && samePoints(g, viaSolutions(b, a, pv, fr, false));
    out << "{\"kind\":\"curve\",\"id\":\"c" << id << "\",\"pv\":"; list(out, x.pv); out << ",\"time\":"; list(out, x.time);
    out << ",\"m\":" << x.m << ",\"fn\":" << x.fn << ",\"fd\":" << x.fd << ",\"tp\":" << tp << ",\"tf\":" << tf << ",\"fit\":" << (fitAll ? 1 : 0)
        << ",\"same\":" << (same ? 1 : 0) << ",\"ord\":"; list(out, ord); out << ",\"phi\":"; list(out, phi); out << ",\"f\":"; list(out, f); out << "}\n";
    ++counters["recorded_curves"];
    if (w("C17") && (int)phi.size() == n + 1 && phi.size() == f.size() && fitAll && (double)tp * tf < 9e8) {
        long long busy = 0;
        for (int k = 0; k < n; ++k) if (f[k + 1] > f[k]) ++busy;
        area(id, "a", phi, f, (int)tp, (int)tf, g, true, busy);
    }
}

// A field of many cells, given by a histogram.
void recordRuns(long long id, Rng& rng, int scale) {
    struct H { int c, pv, time; };
    const int m = 4;
    std::vector<H> h;
    for (int t : { 1, 2, 4 }) for (int p : { 0, 1, 2 }) if (rng.below(3)) h.push_back({ scale * (1 + rng.below(3)), p, t });
    h.push_back({ scale, 1, 2 });
    const bool outlier = rng.below(2);
    long long tot = 0;
    for (const auto& q : h) tot += (long long)q.c * q.pv;
    int fn = 1, fd = 1;
    if (outlier) { fn = 1; fd = 4; h.push_back({ 1, (int)tot, 1 + 3 * rng.below(2) }); }
    std::vector<int> pv, time;
    for (const auto& q : h) for (int k = 0; k < q.c; ++k) { pv.push_back(q.pv); time.push_back(q.time); }
    const int n = (int)pv.size();
    const auto p = rng.perm(n);
    Input x{ std::vector<int>(n), std::vector<int>(n), m, fn, fd };
    for (int k = 0; k < n; ++k) { x.pv[p[k]] = pv[k]; x.time[p[k]] = time[k]; }
    D dp, da, db; fields(x, rng, dp, da, db);
    const double fr = double(fn) / fd;
    const auto g = direct(da, db, dp, fr, false);
    long long tp = 0, tf = 0, busy = 0;
    std::map<int, std::pair<long long, long long>> group;
    for (const auto& q : h) {
        if (outlier && q.pv == tot && q.c == 1) continue;
        tp += (long long)q.c * q.pv; tf += (long long)q.c * q.pv * (m / q.time);
        if (q.pv) { busy += q.c; group[q.time].first += (long long)q.c * q.pv; group[q.time].second += (long long)q.c * q.pv * (m / q.time); }
    }
    fitAll = true;
    std::vector<std::array<long long, 3>> runs;
    for (std::size_t k = 0; k + 1 < g.first.size() && k + 1 < g.second.size(); ++k) {
        const long long a = proj(g.first[k + 1] - g.first[k], (double)tp), b = proj(g.second[k + 1] - g.second[k], (double)tf);
        if (!runs.empty() && runs.back()[1] == a && runs.back()[2] == b) ++runs.back()[0];
        else runs.push_back({ 1, a, b });
        if (runs.size() > 2000) break;
    }
    const bool same = samePoints(g, viaSolutions(db, da, dp, fr, false));
    out << "{\"kind\":\"runs\",\"id\":\"r" << id << "\",\"hist\":[";
    for (std::size_t k = 0; k < h.size(); ++k) out << (k ? "," : "") << '[' << h[k].c << ',' << h[k].pv << ',' << h[k].time << ']';
    out << "],\"m\":" << m << ",\"fn\":" << fn << ",\"fd\":" << fd << ",\"tp\":" << tp << ",\"tf\":" << tf << ",\"fit\":" << (fitAll ? 1 : 0) << ",\"same\":" << (same ? 1 : 0)
        << ",\"points\":" << (g.first.size() == g.second.size() ? (long long)g.first.size() : -1) << ",\"runs\":[";
    for (std::size_t k = 0; k < runs.size(); ++k) out << (k ? "," : "") << '[' << runs[k][0] << ',' << runs[k][1] << ',' << runs[k][2] << ']';
    out << "]}\n";
    ++counters["large_curves"];
    counters["cells_in_large_curves"] += n;
    if (w("C17")) {
        std::vector<int> phi{ 0 }, f{ 0 };
        long long cp = 0, cf = 0;
        bool div = true;
        for (const auto& q : group) { cp += q.second.first; cf += q.second.second; div = div && cp % scale == 0 && cf % scale == 0; phi.push_back((int)(cp / scale)); f.push_back((int)(cf / scale)); }
        if (div) area(id, "ra", phi, f, (int)(tp / scale), (int)(tf / scale), g, true, busy);
    }
}

void recordFree(long long id, Rng& rng) {      // any non-decreasing curve
    const int n = rng.range(1, 30);
    std::vector<int> phi{ 0 }, f{ 0 };
    const bool concave = rng.below(3) == 0;
    for (int k = 0; k < n; ++k) {
        phi.push_back(phi.back() + (rng.below(4) ? rng.below(6) : 0));
        f.push_back(f.back() + (rng.below(4) ? rng.below(6) : 0));
    }
    if (concave) { phi = { 0, 1, 3, 8 }; f = { 0, 4, 6, 8 }; }
    if (phi.back() == 0) phi.back() = 1;
    if (f.back() == 0) f.back() = 1;
    FD::Graph g;
    for (std::size_t k = 0; k < phi.size(); ++k) { g.first.push_back(double(phi[k]) / phi.back()); g.second.push_back(double(f[k]) / f.back()); }
    long long up = 0;
    for (std::size_t k = 0; k + 1 < f.size(); ++k) if (f[k + 1] > f[k]) ++up;
    area(id, "f", phi, f, phi.back(), f.back(), g, false, up);
}

void recordRefuse(long long id, Rng& rng) {
    const int n = rng.range(1, 6);
    int la = n, lb = n, lp = n;
    const int which = rng.below(4);
    if (which == 1) la += rng.below(2) ? 1 : -1;
    if (which == 2) lb += rng.below(2) ? 1 : -1;
    if (which == 3) lp += rng.below(2) ? 1 : -1;
    auto mk = [&](int k) { D d; for (int i = 0; i < k; ++i) d.push_back(1.0 + rng.below(4)); return d; };
    const D a = mk(la), b = mk(lb), p = mk(lp);
    const bool sol = rng.below(2);
    const int res = outcome([&] { if (sol) viaSolutions(a, b, p, 1.0, true); else direct(a, b, p, 1.0, rng.below(2)); });
    out << "{\"kind\":\"refuse\",\"what\":\"curve\",\"id\":\"x" << id << "\",\"valid\":" << (which == 0 ? 1 : 0) << ",\"res\":" << res << "}\n";
    FD::Graph g{ D{ 0 }, D{ 0 } };
    for (int i = 1; i <= n; ++i) { g.first.push_back(double(i) / n); g.second.push_back(double(i) / n); }
    const int wg = rng.below(3);
    if (wg == 1) { if (rng.below(2)) g.first.push_back(1.0); else g.first.pop_back(); }
    if (wg == 2) { if (rng.below(2)) g.second.push_back(1.0); else g.second.pop_back(); }
    for (int f = 0; f < 2; ++f) {
        const int r2 = outcome([&] { if (f) FD::sweepEfficiency(g); else FD::lorenzCoefficient(g); });
        out << "{\"kind\":\"refuse\",\"what\":\"area\",\"id\":\"y" << id << "\",\"valid\":" << (wg == 0 ? 1 : 0) << ",\"res\":" << r2 << "}\n";
    }
    ++counters["refusals"];
}

typedef std::vector<std::array<int, 2>> Sparse;
void put(std::ostream& o, const Sparse& s) { o << '['; for (std::size_t k = 0; k < s.size(); ++k) o << (k ? "," : "") << '[' << s[k][0] << ',' << s[k][1] << ']'; o << ']'; }

void recordPair(long long id, Rng& rng) {
    const int n = rng.below(4) ? rng.range(1, 12) : rng.range(40, 300);
    const int mode = rng.below(3);
    auto sparse = [&](int lo, int hi, bool rates) {
        Sparse s;
        for (int c = 0; c < n; ++c) {
            const bool in = mode == 0 ? rng.below(2) : mode == 1 ? rng.below(6) == 0 : rng.below(8) != 0;
            if (in) s.push_back({ c, rates ? rng.range(-4, 4) : rng.range(lo, hi) });
        }
        return s;
    };
    const Sparse inj = rng.below(12) ? sparse(1, 16, false) : Sparse{}, prod = rng.below(12) ? sparse(1, 16, false) : Sparse{};
    const Sparse ir = sparse(0, 0, true), pr = sparse(0, 0, true);
    std::vector<int> pv(n);
    for (auto& x : pv) x = rng.range(0, 9);
    // Names that are easily confused.
    static const char* names[][2] = { { "I-1", "P-1" }, { "WELL", "WELL2" }, { "A", "a" }, { "INJECTOR-1", "INJECTOR-10" }, { "", "x" } };
    const auto& nm = names[rng.below(5)];
    const bool sameId = rng.below(6) == 0;
    const FD::CellSetID ii(nm[0]), pp(sameId ? nm[0] : nm[1]), other("other");
    FD::Solution fs, rs;
    auto conc = [&](const Sparse& s) { FD::CellSetValues v; for (const auto& q : s) v[q[0]] = q[1] / 16.0; return v; };
    auto decoy = [&]() { FD::CellSetValues v; for (int c = 0; c < n; ++c) v[c] = 0.7; return v; };
    fs.assign(ii, FD::Solution::TracerConcentration{ conc(inj) });
    rs.assign(pp, FD::Solution::TracerConcentration{ conc(prod) });
    fs.assign(ii, FD::Solution::TimeOfFlight{ decoy() });
    rs.assign(pp, FD::Solution::TimeOfFlight{ decoy() });
    fs.assign(other, FD::Solution::TracerConcentration{ decoy() });
    rs.assign(other, FD::Solution::TracerConcentration{ decoy() });
    if (!sameId) { fs.assign(pp, FD::Solution::TracerConcentration{ decoy() }); rs.assign(ii, FD::Solution::TracerConcentration{ decoy() }); }
    const FD::Toolbox::Forward f{ fs }; const FD::Toolbox::Reverse r{ rs };
    D dpv(pv.begin(), pv.end());
    fitAll = true;
    const long long vol = proj(FD::injectorProducerPairVolume(f, r, dpv, ii, pp), 256.0);
    out << "{\"kind\":\"vol\",\"id\":\"v" << id << "\",\"pv\":"; list(out, pv); out << ",\"inj\":"; put(out, inj); out << ",\"prod\":"; put(out, prod);
    out << ",\"vol\":" << vol << ",\"fit\":" << (fitAll ? 1 : 0) << "}\n";
    if (rng.below(4) == 0) {   // an ID without fields
        fitAll = true;
        const bool which = rng.below(2);
        const long long v0 = proj(FD::injectorProducerPairVolume(f, r, dpv, which ? FD::CellSetID("nobody") : ii, which ? pp : FD::CellSetID("nobody")), 256.0);
        out << "{\"kind\":\"vol\",\"id\":\"w" << id << "\",\"pv\":"; list(out, pv); out << ",\"inj\":[],\"prod\":[],\"vol\":" << v0 << ",\"fit\":" << (fitAll ? 1 : 0) << "}\n";
    }
    std::map<FD::CellSetID, FD::CellSetValues> q;
    auto rate = [&](const Sparse& s) { FD::CellSetValues v; for (const auto& e : s) v[e[0]] = e[1]; return v; };
    const int miss = rng.below(6);
    if (miss != 0) q[ii] = rate(ir);
    if (miss != 1 && !(sameId && miss == 0)) q[pp] = rate(sameId ? ir : pr);
    if (sameId && miss == 1) q.erase(ii);
    q[other] = decoy();
    std::pair<double, double> pf{ 0, 0 };
    const int res = outcome([&] { pf = FD::injectorProducerPairFlux(f, r, ii, pp, q); });
    fitAll = true;
    const long long q1 = proj(pf.first, 16), q2 = proj(pf.second, 16);
    out << "{\"kind\":\"flux\",\"id\":\"q" << id << "\",\"inj\":"; put(out, inj); out << ",\"prod\":"; put(out, prod); out << ",\"irates\":"; put(out, ir);
    out << ",\"prates\":"; put(out, sameId ? ir : pr); out << ",\"known\":" << (miss > 1 ? 1 : 0) << ",\"res\":" << res << ",\"q1\":" << q1 << ",\"q2\":" << q2 << ",\"fit\":" << (fitAll ? 1 : 0) << "}\n";
    ++counters["pairs"];
}

} // namespace

int main(int argc, char** argv) {
    const std::uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const int part = std::atoi(opt(argc, argv, "--part", "0")), parts = std::atoi(opt(argc, argv, "--parts", "1"));
    const long long only = std::atoll(opt(argc, argv, "--only", "-1"));
    Progress pr; pr.open(opt(argc, argv, "--progress", ""));
    {
        std::stringstream ss(opt(argc, argv, "--props", "")); std::string t;
        while (std::getline(ss, t, ',')) if (!t.empty()) want.insert(t);
    }
    const std::string pre = opt(argc, argv, "--out", "");
    out.open(pre.empty() ? "/dev/null" : pre + "." + std::to_string(part));
    long long k = -1;
    auto mine = [&]() { ++k; return only >= 0 ? k == only : k % parts == part; };
    const bool curves = w("C16") || w("C17"), pairs = w("C18") || w("C19");
    const std::string in = opt(argc, argv, "--in", "");
    if (curves && !in.empty()) {
        std::ifstream f(in);
        if (!f) { std::cerr << "cannot read " << in << "\n"; return 3; }
        std::string line;
        while (std::getline(f, line)) {
            if (line.empty() || !mine()) continue;
            pr.at(k, "exact");
            replay(parseLine(line), seed);
        }
    }
    const long long nr = std::atoll(opt(argc, argv, "--rnd", "500"));
    for (long long q = 0; curves && q < nr; ++q) {
        if (!mine()) continue;
        pr.at(k, "curve");
        Rng rng(seed * 6700417 + k);
        Input x;
        const int n = q % 40 == 0 ? rng.range(200, 2000) : rng.range(1, 40);
        x.m = rng.below(2) ? 8 : 12;
        const std::vector<int> ts = x.m == 8 ? std::vector<int>{ 1, 2, 4, 8 } : std::vector<int>{ 1, 2, 3, 4, 6, 12 };
        const int nt = 1 + rng.below((int)ts.size());
        const int pmax = 1 + rng.below(3);
        for (int c = 0; c < n; ++c) { x.pv.push_back(rng.below(pmax + 1)); x.time.push_back(ts[rng.below(nt)]); }
        x.fd = 8; x.fn = rng.below(2) ? 8 : rng.range(1, 8);
        if (rng.below(3) == 0) x.pv[rng.below(n)] = rng.range(1, 3 * n);
        long long tot = 0, cnt = 0;
        for (int p : x.pv) tot += p;
        for (int p : x.pv) if ((long long)p * x.fd <= x.fn * tot) cnt += p;
        if (cnt == 0) { x.pv.assign(n, 1); x.fn = 8; }
        recordCurve(k, x, rng);
    }
    for (long long q = 0; curves && q < nr / 2; ++q) {
        if (!mine()) continue;
        pr.at(k, "free curve");
        Rng rng(seed * 6700417 + k);
        if (w("C17")) recordFree(k, rng);
        recordRefuse(k, rng);
    }
    const int nbig = std::atoi(opt(argc, argv, "--big", "8"));
    for (int q = 0; curves && q < nbig; ++q) {
        if (!mine()) continue;
        pr.at(k, "large curve");
        Rng rng(seed * 6700417 + k);
        recordRuns(k, rng, q % 4 == 0 ? 20000 : q % 4 == 1 ? 100 : 3000);
    }
    for (long long q = 0; pairs && q < nr * 2; ++q) {
        if (!mine()) continue;
        pr.at(k, "pair");
        Rng rng(seed * 6700417 + k);
        recordPair(k, rng);
    }
    for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
    std::cout << "DONE " << mism << "\n";
    return 0;
}
