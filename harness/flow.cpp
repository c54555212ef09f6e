// Replays networks and their exact solutions (printed by TLC from
// spec/FlowGen.tla) into the real toolbox, and reports every disagreement
// under the property it breaks.
#include "flowcase.hpp"

namespace {

Problem scaled(const Problem& p, double fu, double pu) {
    Problem q = p;
    for (auto& f : q.flux) for (auto& x : f) x *= fu;
    for (auto& w : q.wells) w.rate *= fu;
    for (auto& x : q.pv) x *= pu;
    return q;
}

Problem negated(const Problem& p) {
    Problem q = p;
    for (auto& f : q.flux) for (auto& x : f) x = -x;
    for (auto& w : q.wells) w.rate = -w.rate;
    return q;
}

// ------------------------------------------------------------------ reporting
std::set<std::string> want;
long long mism = 0;
std::map<std::string, long long> counters;

void bad(const char* prop, const Case& c, const char* variant, const std::string& msg) {
    if (!want.empty() && !want.count(prop)) return;
    ++mism;
    if (mism <= 20)
        std::cout << "MISMATCH " << prop << " " << c.idx << " " << variant << " " << msg << "\n";
}



struct Ctx { const Case& c; const char* var; double tu; double relT, relt, abst; bool values; };

// Checks one direction against the specification's solution.
void checkDir(const Ctx& x, bool fwd, const Result& r, const ExpDir& e, const std::vector<int>& asked) {
    const Case& c = x.c;
    const std::string d = fwd ? "inj" : "prod";
    auto both = [&](const char* p, const std::string& m) {
        bad(p, c, x.var, m);
        if (c.cyc) bad("C06", c, x.var, m);
    };
    if (r.threw) {
        for (const char* p : { "C01", "C02", "C03", "C04", "C05", "C18", "C19" }) bad(p, c, x.var, d + ": exception: " + r.what);
        if (c.cyc) bad("C06", c, x.var, d + ": exception: " + r.what);
        return;
    }
    // C05: shape and bounds of the global field.
    if ((int)r.tof.size() != c.p.n) { bad("C05", c, x.var, d + ": global tof has " + S(r.tof.size()) + " values"); return; }
    for (int k = 0; k < c.p.n; ++k) {
        const double t = r.tof[k];
        if (!(t >= 0.0 && t <= MAXTOF)) bad("C05", c, x.var, d + ": global tof[" + S(k) + "] = " + S(t) + " out of [0, 200 years]");
        if (!e.region.count(k)) {
            if (t != MAXTOF) both("C05", d + ": unreached cell " + S(k) + " has global tof " + S(t));
        }
        else if (x.values) {
            const double ex = e.gcap[k] ? MAXTOF : e.gtof[k] * x.tu;
            if (!close(t, ex, x.relt, x.abst)) {
                const std::string m = d + ": global tof[" + S(k) + "] = " + S(t) + ", expected " + S(ex);
                if (c.cap) bad("C05", c, x.var, m);
                if (!e.gcap[k]) bad("C04", c, x.var, m);
                if (c.cyc) bad("C06", c, x.var, m);
            }
        }
    }
    // C01: start points.
    {
        std::multiset<std::string> a(r.starts.begin(), r.starts.end()), b;
        for (int id : asked) b.insert(name(id));
        if (a != b) bad("C01", c, x.var, d + ": start points differ from the requested IDs");
    }
    for (int id : asked) {
        const auto& f = r.id.at(id);
        const auto& l = e.ids.at(id);
        const std::string w = d + " " + name(id) + ": ";
        std::set<int> ec; for (const auto& q : l) ec.insert(q.cell);
        std::set<int> cc, tc;
        for (const auto& q : f.c) cc.insert(q.first);
        for (const auto& q : f.t) tc.insert(q.first);
        if (cc != ec) both("C01", w + "concentration region differs from flow-connected cells");
        if (tc != ec) both("C01", w + "time of flight region differs from flow-connected cells");
        for (const auto& q : f.c) if (!(q.second > 0.0)) both("C01", w + "concentration " + S(q.second) + " in cell " + S(q.first));
        for (const auto& q : f.t)
            if (!(q.second >= 0.0 && q.second <= MAXTOF)) bad("C05", c, x.var, w + "tof " + S(q.second) + " out of bounds in cell " + S(q.first));
        for (const auto& q : l) {
            auto ic = f.c.find(q.cell); auto it = f.t.find(q.cell);
            if (x.values) {
                if (ic == f.c.end() || !close(ic->second, q.T, x.relT, 0.0))
                    both("C02", w + "concentration[" + S(q.cell) + "] = " + (ic == f.c.end() ? "none" : S(ic->second)) + ", expected " + S(q.T));
                const double ex = q.cap ? MAXTOF : q.tof * x.tu;
                if (it == f.t.end() || !close(it->second, ex, x.relt, x.abst)) {
                    const std::string m = w + "tof[" + S(q.cell) + "] = " + (it == f.t.end() ? "none" : S(it->second)) + ", expected " + S(ex);
                    if (c.cap) bad("C05", c, x.var, m);
                    if (!q.cap) bad("C04", c, x.var, m);
                    if (c.cyc) bad("C06", c, x.var, m);
                }
            }
        }
    }
    // C03: partition of unity (all IDs requested).
    if (asked.size() == e.order.size()) {
        const double tol = c.cyc ? 1e-5 : 1e-10;
        std::vector<double> sum(c.p.n, 0.0), wt(c.p.n, 0.0);
        for (int id : asked)
            for (const auto& q : r.id.at(id).c) {
                if (q.first < 0 || q.first >= c.p.n) continue;
                sum[q.first] += q.second;
                auto it = r.id.at(id).t.find(q.first);
                if (it != r.id.at(id).t.end()) wt[q.first] += q.second * it->second;
                if (!(q.second <= 1.0 + tol)) bad("C03", c, x.var, d + " " + name(id) + ": concentration " + S(q.second) + " above one in cell " + S(q.first));
                if (!(q.second > 0.0)) bad("C03", c, x.var, d + " " + name(id) + ": concentration " + S(q.second) + " not positive in cell " + S(q.first));
            }
        for (int k = 0; k < c.p.n; ++k) {
            if (e.fed.count(k) ? !(std::fabs(sum[k] - 1.0) <= tol) : !(sum[k] < 1.0 - 1e-5))
                bad("C03", c, x.var, d + ": concentrations sum to " + S(sum[k]) + " in cell " + S(k) + (e.fed.count(k) ? " (fully fed)" : " (not fully fed)"));
            // C04: superposition
            if (!c.cap && sum[k] > 0.0 && !close(wt[k], sum[k] * r.tof[k], c.cyc ? 1e-4 : 1e-9, x.abst))
                bad("C04", c, x.var, d + ": weighted tracer tofs " + S(wt[k]) + " do not add up to global " + S(sum[k] * r.tof[k]) + " in cell " + S(k));
        }
    }
}

// Compares two results of the code; cells of `b` are renamed by perm.
bool same(const Result& a, const Result& b, const std::vector<int>& perm, const std::vector<int>& ids,
          double tscale, double relT, double relt, double abst, std::string& msg) {
    if (a.threw != b.threw) { msg = "one run failed: " + a.what + b.what; return false; }
    if (a.threw) return true;
    if (a.tof.size() != b.tof.size()) { msg = "global tof sizes differ"; return false; }
    for (std::size_t k = 0; k < a.tof.size(); ++k) {
        const double x = a.tof[k] == MAXTOF ? MAXTOF : a.tof[k] * tscale, y = b.tof[perm[k]];
        if (!close(y, x, relt, abst)) { msg = "global tof of cell " + S(k) + ": " + S(x) + " and " + S(y); return false; }
    }
    for (int id : ids) {
        const auto &f = a.id.at(id), &g = b.id.at(id);
        if (f.c.size() != g.c.size() || f.t.size() != g.t.size()) { msg = name(id) + ": regions differ"; return false; }
        for (const auto& q : f.c) {
            auto it = g.c.find(perm[q.first]);
            if (it == g.c.end() || !close(it->second, q.second, relT, 0.0)) { msg = name(id) + ": concentration of cell " + S(q.first) + " differs: " + S(q.second) + " and " + (it == g.c.end() ? "none" : S(it->second)); return false; }
        }
        for (const auto& q : f.t) {
            auto it = g.t.find(perm[q.first]);
            const double x = q.second == MAXTOF ? MAXTOF : q.second * tscale;
            if (it == g.t.end() || !close(it->second, x, relt, abst)) { msg = name(id) + ": tof of cell " + S(q.first) + " differs: " + S(x) + " and " + (it == g.t.end() ? "none" : S(it->second)); return false; }
        }
    }
    return true;
}

std::vector<int> identity(int n) { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; return p; }

bool w(const char* p) { return want.empty() || want.count(p); }
bool wantAny(std::initializer_list<const char*> l) { for (auto p : l) if (w(p)) return true; return false; }

// C18 and C19 on one pair of results, from what the code itself reported.
void checkPairs(const Case& c, const char* var, const Problem& p, const Result& f, const Result& r,
                const FD::Solution& fs, const FD::Solution& rs, double fu, double pu) {
    if (f.threw || r.threw) return;
    const FD::Toolbox::Forward fw{ fs };
    const FD::Toolbox::Reverse rv{ rs };
    const auto q = inflow(p);
    const double tol = c.cyc ? 1e-4 : 1e-9;
    double pvsum = 0; for (double x : p.pv) pvsum += x;
    double volsum = 0;
    double qscale = 0; for (const auto& e : p.wells) qscale += std::fabs(e.rate);
    std::map<int, double> injsum, prodsum;
    for (int i : c.f.order)
        for (int o : c.r.order) {
            const double vol = FD::injectorProducerPairVolume(fw, rv, p.pv, FD::CellSetID(name(i)), FD::CellSetID(name(o)));
            double ev = 0;
            for (const auto& e : f.id.at(i).c) { auto it = r.id.at(o).c.find(e.first); if (it != r.id.at(o).c.end()) ev += p.pv[e.first] * e.second * it->second; }
            if (!close(vol, ev, 1e-10, 1e-12 * pvsum) || vol < 0) bad("C18", c, var, "pair volume " + name(i) + "/" + name(o) + " = " + S(vol) + ", expected " + S(ev));
            volsum += vol;
            const auto& spec = c.pairs.at({ i, o });
            if (!close(vol, spec[0] * pu, tol, 1e-9 * pvsum)) bad("C18", c, var, "pair volume " + name(i) + "/" + name(o) + " = " + S(vol) + ", specification: " + S(spec[0] * pu));
            const auto pf = FD::injectorProducerPairFlux(fw, rv, FD::CellSetID(name(i)), FD::CellSetID(name(o)), q);
            double e1 = 0, e2 = 0;
            for (const auto& e : p.wells) {
                if (e.id == i && e.rate > 0) { auto it = r.id.at(o).c.find(e.cell); if (it != r.id.at(o).c.end()) e1 += e.rate * it->second; }
                if (e.id == o && e.rate < 0) { auto it = f.id.at(i).c.find(e.cell); if (it != f.id.at(i).c.end()) e2 += e.rate * it->second; }
            }
            if (!close(pf.first, e1, 1e-10, 1e-12 * qscale) || pf.first < 0) bad("C19", c, var, "injection pair flux " + name(i) + "/" + name(o) + " = " + S(pf.first) + ", expected " + S(e1));
            if (!close(pf.second, e2, 1e-10, 1e-12 * qscale) || pf.second > 0) bad("C19", c, var, "production pair flux " + name(i) + "/" + name(o) + " = " + S(pf.second) + ", expected " + S(e2));
            if (c.bal && !close(pf.first, -pf.second, tol, tol * qscale)) bad("C19", c, var, "pair fluxes of balanced flow differ: " + S(pf.first) + " and " + S(pf.second));
            if (!close(pf.first, spec[1] * fu, tol, 1e-9 * qscale)) bad("C19", c, var, "injection pair flux " + name(i) + "/" + name(o) + " = " + S(pf.first) + ", specification: " + S(spec[1] * fu));
            if (!close(pf.second, spec[2] * fu, tol, 1e-9 * qscale)) bad("C19", c, var, "production pair flux " + name(i) + "/" + name(o) + " = " + S(pf.second) + ", specification: " + S(spec[2] * fu));
            injsum[i] += pf.first; prodsum[o] += pf.second;
            ++counters["pairs"];
        }
    if (volsum > pvsum * (1 + tol) + 1e-12 * pvsum) bad("C18", c, var, "pair volumes sum to " + S(volsum) + ", more than the pore volume " + S(pvsum));
    if ((int)c.f.fed.size() == c.p.n && (int)c.r.fed.size() == c.p.n) {
        ++counters["fully_swept"];
        if (!close(volsum, pvsum, tol, 0)) bad("C18", c, var, "pair volumes sum to " + S(volsum) + ", pore volume is " + S(pvsum));
    }
    if (c.bal) {
        ++counters["balanced"];
        for (int i : c.f.order) {
            double t = 0; for (const auto& e : p.wells) if (e.id == i && e.rate > 0) t += e.rate;
            if (!close(injsum[i], t, tol, 0)) bad("C19", c, var, "fluxes of injector " + name(i) + " sum to " + S(injsum[i]) + ", rate is " + S(t));
        }
        for (int o : c.r.order) {
            double t = 0; for (const auto& e : p.wells) if (e.id == o && e.rate < 0) t += e.rate;
            if (!close(prodsum[o], t, tol, 0)) bad("C19", c, var, "fluxes of producer " + name(o) + " sum to " + S(prodsum[o]) + ", rate is " + S(t));
        }
    }
    // Unknown IDs are refused.
    auto refuse = [&](int i, int o) {
        try { FD::injectorProducerPairFlux(fw, rv, FD::CellSetID(name(i)), FD::CellSetID(name(o)), q); }
        catch (const std::runtime_error&) { return; }
        catch (...) { }
        bad("C19", c, var, "pair flux with an unknown ID was not refused with a runtime error");
    };
    if (!c.f.order.empty()) refuse(c.f.order[0], 901);
    if (!c.r.order.empty()) refuse(901, c.r.order[0]);
}

// ------------------------------------------------------------------ covers
// k copies of every cell; connection a-b joins copy j of a to copy j + s of b
// (CoverOK in spec/FlowGen.tla: the solution is the one below, copied).  With
// `own`, the copies stay apart (s = 0) and each has wells of its own.
Case cover(const Case& c, int k, bool own, Rng& rng) {
    Case L = c;
    const int n = c.p.n, m = (int)c.p.conns.size();
    const int style = rng.below(3);
    std::vector<int> num = style == 0 ? identity(n * k) : rng.perm(n * k);
    if (style == 2) {   // scrambled copies in blocks
        const auto b = rng.perm(k);
        for (int j = 0; j < k; ++j) for (int a = 0; a < n; ++a) num[a + n * j] = n * b[j] + a;
    }
    auto at = [&](int a, int j) { return num[a + n * (j % k)]; };
    auto idOf = [&](int id, int j) { return own ? 1000 + id + 40 * j : id; };
    L.p.n = n * k;
    L.p.conns.clear(); L.p.flux.clear(); L.p.wells.clear();
    L.p.pv.assign(n * k, 0.0);
    std::vector<int> shift(m, 0);
    const int kind = own ? 0 : rng.below(3);
    for (int e = 0; e < m; ++e)
        if (c.p.conns[e].first != c.p.conns[e].second) shift[e] = kind == 0 ? 0 : kind == 1 ? rng.below(3) % k : rng.below(k);
    for (int t : style == 1 ? rng.perm(m * k) : identity(m * k)) {
        const int e = t % m, j = t / m;
        std::pair<int, int> q{ at(c.p.conns[e].first, j), at(c.p.conns[e].second, j + shift[e]) };
        auto f = c.p.flux[e];
        if (style == 1 && rng.below(2)) { std::swap(q.first, q.second); for (auto& x : f) x = -x; }
        L.p.conns.push_back(q); L.p.flux.push_back(f);
    }
    for (int j = 0; j < k; ++j) {
        for (int a = 0; a < n; ++a) L.p.pv[at(a, j)] = c.p.pv[a];
        for (const auto& e : c.p.wells) L.p.wells.push_back({ idOf(e.id, j), at(e.cell, j), e.rate });
    }
    auto dir = [&](const ExpDir& d) {
        ExpDir x;
        x.gtof.assign(n * k, 0.0); x.gcap.assign(n * k, 0);
        for (int j = 0; j < k; ++j) {
            for (int a = 0; a < n; ++a) { x.gtof[at(a, j)] = d.gtof[a]; x.gcap[at(a, j)] = d.gcap[a]; }
            for (int a : d.fed) x.fed.insert(at(a, j));
            for (int a : d.region) x.region.insert(at(a, j));
            for (int id : d.order) {
                if (own || j == 0) x.order.push_back(idOf(id, j));
                for (Exp q : d.ids.at(id)) { q.cell = at(q.cell, j); x.ids[idOf(id, j)].push_back(q); }
            }
        }
        return x;
    };
    L.f = dir(c.f); L.r = dir(c.r);
    L.pairs.clear();
    for (const auto& q : c.pairs)
        for (int j = 0; j < (own ? k : 1); ++j)
            for (int h = 0; h < (own ? k : 1); ++h) {
                auto v = q.second;
                for (auto& x : v) x *= own ? (j == h ? 1.0 : 0.0) : double(k);
                L.pairs[{ idOf(q.first.first, j), idOf(q.first.second, h) }] = v;
            }
    return L;
}

void runCover(const Case& c, int k, bool own, double tu, Rng& rng) {
    const Case L = cover(c, k, own, rng);
    const Problem p = scaled(L.p, 1.0, tu);
    const char* nm = own ? "copies" : "cover";
    Ctx x{ L, nm, tu, c.cyc ? 1e-5 : 1e-10, c.cyc ? 1e-5 : 1e-10, (c.cyc ? 1e-6 : 1e-12) * tu, true };
    FD::Solution *fs = nullptr, *rs = nullptr;
    Result f, r;
    std::vector<int> fo = L.f.order, ro = L.r.order;
    rng.shuffle(fo); rng.shuffle(ro);
    {
        auto box = makeBox(p);
        f = run(box, p, true, fo, rng, &fs);
        r = run(box, p, false, ro, rng, &rs);
    }
    checkDir(x, true, f, L.f, fo);
    checkDir(x, false, r, L.r, ro);
    if (wantAny({ "C18", "C19" }) && fs && rs) checkPairs(L, nm, p, f, r, *fs, *rs, 1.0, tu);
    if (w("C07")) {
        const Problem mp = negated(p);
        Result mf, mr;
        {
            auto box = makeBox(mp);
            mf = run(box, mp, false, fo, rng);
            mr = run(box, mp, true, ro, rng);
        }
        std::string msg;
        const auto id = identity(p.n);
        const double rel = c.cyc ? 1e-4 : 1e-9;
        if (!same(f, mf, id, fo, 1.0, rel, rel, x.abst * 10, msg)) bad("C07", c, nm, "injection vs reversed production: " + msg);
        if (!same(r, mr, id, ro, 1.0, rel, rel, x.abst * 10, msg)) bad("C07", c, nm, "production vs reversed injection: " + msg);
    }
    delete fs; delete rs;
    ++counters["covers"];
    if (p.n > counters["max_cover_cells"]) counters["max_cover_cells"] = p.n;
    if ((long long)fo.size() > counters["max_start_points"]) counters["max_start_points"] = (long long)fo.size();
}

// ------------------------------------------------------------------ one case
void runCase(const Case& c, std::uint64_t seed) {
    Rng rng(seed * 1000003ull + c.idx);
    const double tu0 = MAXTOF / c.maxT;
    const std::vector<int> &fi = c.f.order, &ri = c.r.order;
    std::vector<int> fo = fi, ro = ri;
    rng.shuffle(fo); rng.shuffle(ro);

    struct Var { const char* nm; double fu, tu; };
    std::vector<Var> vars = { { "unit", 1.0, tu0 } };
    const bool dense = wantAny({ "C01", "C02", "C03", "C04", "C05", "C06" });
    if (dense) {
        vars.push_back({ "tiny-flux", std::ldexp(1.0, -37), tu0 });
        vars.push_back({ "huge-flux", std::ldexp(1.0, 20), tu0 });
        vars.push_back({ "minute-flux", std::ldexp(1.0, -560), tu0 });
        if (!c.multiPhase && !c.tie) vars.push_back({ "odd-unit", 1.0e-3 / 3.0, tu0 });
        if (!c.cap && !c.cyc) vars.push_back({ "short-times", 1.0, 1.0e-3 });
        if (!c.cap && !c.cyc && !c.multiPhase) vars.push_back({ "field-units", 1.157e-5, 1.1e5 });
    }
    else if (!c.multiPhase && !c.tie) vars.push_back({ "odd-unit", 1.0e-3 / 3.0, tu0 });

    Result base[2]; Problem baseP;
    for (std::size_t vi = 0; vi < vars.size(); ++vi) {
        const Var& v = vars[vi];
        const Problem p = scaled(c.p, v.fu, v.fu * v.tu);
        Ctx x{ c, v.nm, v.tu, c.cyc ? 1e-5 : 1e-10, c.cyc ? 1e-5 : 1e-10, (c.cyc ? 1e-6 : 1e-12) * v.tu, true };
        FD::Solution *fs = nullptr, *rs = nullptr;
        Result f, r;
        {
            auto box = makeBox(p);
            f = run(box, p, true, fo, rng, &fs);
            r = run(box, p, false, ro, rng, &rs);
        }
        ++counters["runs"];
        checkDir(x, true, f, c.f, fo);
        checkDir(x, false, r, c.r, ro);
        if (vi == 0) {
            base[0] = f; base[1] = r; baseP = p;
            // A subset of the IDs: the rest must be empty.
            if (w("C01") && fi.size() + ri.size() > 0) {
                auto box = makeBox(p);
                for (int dir = 0; dir < 2; ++dir) {
                    const auto& all = dir == 0 ? fo : ro;
                    std::vector<int> part;
                    for (int id : all) if (rng.below(2)) part.push_back(id);
                    try {
                        auto sets = startSets(p, dir == 0, part, rng);
                        const FD::Solution s = dir == 0 ? box.computeInjectionDiagnostics(sets).fd : box.computeProductionDiagnostics(sets).fd;
                        Ctx xs = x; xs.var = "subset";
                        Result q = collect(s, part);
                        checkDir(xs, dir == 0, q, dir == 0 ? c.f : c.r, part);
                        std::set<int> ps(part.begin(), part.end());
                        for (int id = 0; id < 26; ++id)
                            if (!ps.count(id) && (!s.concentration(FD::CellSetID(name(id))).empty() || !s.timeOfFlight(FD::CellSetID(name(id))).empty()))
                                bad("C01", c, "subset", "fields of an ID that was not requested are not empty");
                    }
                    catch (const std::exception& e) { bad("C01", c, "subset", std::string("exception: ") + e.what()); }
                }
            }
        }
        if (wantAny({ "C18", "C19" }) && fs && rs) checkPairs(c, v.nm, p, f, r, *fs, *rs, v.fu, v.fu * v.tu);
        delete fs; delete rs;

        // C07: mirror
        if (w("C07")) {
            const Problem m = negated(p);
            Result mf, mr;
            {
                auto box = makeBox(m);
                mf = run(box, m, false, fo, rng);
                mr = run(box, m, true, ro, rng);
            }
            std::string msg;
            const auto id = identity(p.n);
            const double rel = c.cyc ? 1e-4 : 1e-9;
            if (!same(f, mf, id, fo, 1.0, rel, rel, x.abst * 10, msg)) bad("C07", c, v.nm, "injection vs reversed production: " + msg);
            if (!same(r, mr, id, ro, 1.0, rel, rel, x.abst * 10, msg)) bad("C07", c, v.nm, "production vs reversed injection: " + msg);
        }
    }

    // Dilute tracers: every ID shares its cells with a bulk injector.
    if (wantAny({ "C01", "C02", "C04", "C06" })) {
        const double lam = std::ldexp(1.0, -40);
        for (int dir = 0; dir < 2; ++dir) {
            const bool fwd = dir == 0;
            const auto& e = fwd ? c.f : c.r;
            for (int id : e.order) {
                Problem p = scaled(c.p, 1.0, tu0);
                const std::size_t nw = p.wells.size();
                for (std::size_t k = 0; k < nw; ++k)
                    if (p.wells[k].id == id && (fwd ? p.wells[k].rate > 0 : p.wells[k].rate < 0)) {
                        const double q = p.wells[k].rate;
                        p.wells[k].rate = q * lam;
                        p.wells.push_back({ 900, p.wells[k].cell, q * (1 - lam) });
                    }
                Result r;
                { auto box = makeBox(p); r = run(box, p, fwd, { id }, rng); }
                ++counters["dilute"];
                if (r.threw) { for (const char* q : { "C01", "C02", "C04", "C06" }) if (q[2] != '6' || c.cyc) bad(q, c, "dilute", "exception: " + r.what); continue; }
                const auto& f = r.id.at(id);
                const auto& l = e.ids.at(id);
                bool okr = f.c.size() == l.size() && f.t.size() == l.size();
                for (const auto& q : l) okr = okr && f.c.count(q.cell) && f.t.count(q.cell) && f.c.at(q.cell) > 0;
                if (!okr) { bad("C01", c, "dilute", "region of a dilute tracer differs from flow-connected cells"); if (c.cyc) bad("C06", c, "dilute", "region of a dilute tracer differs"); continue; }
                if (c.cyc) continue;   // absolute iteration tolerance: values of dilute tracers on loops are not specified
                for (const auto& q : l) {
                    if (!close(f.c.at(q.cell), lam * q.T, 1e-9, 0)) bad("C02", c, "dilute", "concentration of dilute tracer in cell " + S(q.cell) + ": " + S(f.c.at(q.cell)) + ", expected " + S(lam * q.T));
                    const double ex = q.cap ? MAXTOF : q.tof * tu0;
                    if (!c.cap && !close(f.t.at(q.cell), ex, 1e-9, 1e-12 * tu0)) bad("C04", c, "dilute", "tof of dilute tracer in cell " + S(q.cell) + ": " + S(f.t.at(q.cell)) + ", expected " + S(ex));
                }
            }
        }
    }

    // C10 (and C06: numbering): equivalent descriptions of the same network.
    if (wantAny({ "C10", "C06" })) {
        struct Tr { std::string nm; Problem p; std::vector<int> perm; double tscale; };
        std::vector<Tr> trs;
        const auto id = identity(c.p.n);
        const Problem& b = baseP;
        {   // renumbered, reordered, reoriented
            Tr t{ "renumber", b, rng.perm(b.n), 1.0 };
            for (auto& q : t.p.conns) { q.first = t.perm[q.first]; q.second = t.perm[q.second]; }
            for (std::size_t k = 0; k < t.p.conns.size(); ++k)
                if (rng.below(2)) { std::swap(t.p.conns[k].first, t.p.conns[k].second); for (auto& f : t.p.flux[k]) f = -f; }
            auto ord = rng.perm((int)b.conns.size());
            Problem o = t.p;
            for (std::size_t k = 0; k < ord.size(); ++k) { o.conns[k] = t.p.conns[ord[k]]; o.flux[k] = t.p.flux[ord[k]]; }
            t.p.conns = o.conns; t.p.flux = o.flux;
            for (int k = 0; k < b.n; ++k) t.p.pv[t.perm[k]] = b.pv[k];
            for (auto& q : t.p.wells) q.cell = t.perm[q.cell];
            trs.push_back(t);
        }
        if (w("C10")) {
            // net flux in one phase
            auto net = [&](std::size_t k) { double s = 0; for (double f : b.flux[k]) s += f; return s; };
            Tr one{ "single-phase", b, id, 1.0 };
            one.p.phases = 1;
            for (std::size_t k = 0; k < b.conns.size(); ++k) one.p.flux[k] = { net(k) };
            if (!b.conns.empty()) trs.push_back(one);
            if (!b.conns.empty()) {
                // split over phases, with opposite parts
                Tr t{ "phase-split", one.p, id, 1.0 };
                t.p.phases = 2 + rng.below(5);
                for (std::size_t k = 0; k < b.conns.size(); ++k) {
                    std::vector<double> f(t.p.phases, 0.0);
                    double rest = net(k);
                    for (int q = 0; q + 1 < t.p.phases; ++q) { f[q] = double(rng.range(-3, 3)); rest -= f[q]; }
                    f[t.p.phases - 1] = rest;
                    rng.shuffle(f);
                    t.p.flux[k] = f;
                }
                trs.push_back(t);
            }
            {   // parallel connections
                Tr t{ "parallel-split", one.p, id, 1.0 };
                const std::size_t m = t.p.conns.size();
                for (std::size_t k = 0; k < m; ++k) {
                    const double part = 0.25 * (1 + rng.below(3)) * t.p.flux[k][0];
                    t.p.flux[k][0] -= part;
                    if (rng.below(2)) { t.p.conns.push_back(t.p.conns[k]); t.p.flux.push_back({ part }); }
                    else { t.p.conns.push_back({ t.p.conns[k].second, t.p.conns[k].first }); t.p.flux.push_back({ -part }); }
                }
                if (m) trs.push_back(t);
            }
            {   // merged: one connection per ordered pair of cells
                Tr t{ "merged", one.p, id, 1.0 };
                std::map<std::pair<int,int>, double> acc;
                for (std::size_t k = 0; k < one.p.conns.size(); ++k) {
                    auto q = one.p.conns[k]; double f = one.p.flux[k][0];
                    if (f < 0) { std::swap(q.first, q.second); f = -f; }
                    if (f > 0 && q.first != q.second) acc[q] += f;
                }
                t.p.conns.clear(); t.p.flux.clear();
                for (const auto& q : acc) { t.p.conns.push_back(q.first); t.p.flux.push_back({ q.second }); }
                if (!acc.empty()) trs.push_back(t);
            }
            {   // dead weight: zero-flux and self connections
                Tr t{ "inert-connections", one.p, id, 1.0 };
                for (int k = 0; k < 3; ++k) {
                    const int a = rng.below(b.n), z = rng.below(b.n);
                    t.p.conns.insert(t.p.conns.begin(), { a, z }); t.p.flux.insert(t.p.flux.begin(), { 0.0 });
                    t.p.conns.push_back({ a, a }); t.p.flux.push_back({ double(rng.range(-2, 2)) });
                }
                trs.push_back(t);
            }
            // units
            for (double fu : { std::ldexp(1.0, -37), std::ldexp(1.0, 20), std::ldexp(1.0, -560), std::ldexp(1.0, 200), 1.0e-3 / 3.0, 7.7e-9 }) {
                int ex;
                if ((c.multiPhase || c.tie) && std::frexp(fu, &ex) != 0.5) continue;
                Tr t{ "scaled-flow", b, id, 1.0 };
                for (auto& f : t.p.flux) for (auto& q : f) q *= fu;
                for (auto& q : t.p.wells) q.rate *= fu;
                for (auto& q : t.p.pv) q *= fu;      // same times of flight
                trs.push_back(t);
                if (!c.cap && !c.cyc && fu < 1e9) {  // times of flight divided by the factor
                    Tr u{ "scaled-flux-only", b, id, 1.0 };
                    const double g = 1.0 + 1000.0 * fu;
                    for (auto& f : u.p.flux) for (auto& q : f) q *= g;
                    for (auto& q : u.p.wells) q.rate *= g;
                    u.tscale = 1.0 / g;
                    if (!c.multiPhase) trs.push_back(u);
                }
            }
        }
        for (const auto& t : trs) {
            Result f, r;
            try {
                auto box = makeBox(t.p);
                f = run(box, t.p, true, fo, rng);
                r = run(box, t.p, false, ro, rng);
            }
            catch (const std::exception& e) {
                bad("C10", c, t.nm.c_str(), std::string("exception: ") + e.what());
                continue;
            }
            ++counters["transforms"];
            const double rel = c.cyc ? 1e-4 : 1e-9;
            const double abst = (c.cyc ? 1e-5 : 1e-11) * tu0;
            std::string msg;
            if (!same(base[0], f, t.perm, fo, t.tscale, rel, rel, abst, msg)) {
                bad("C10", c, t.nm.c_str(), "injection: " + msg);
                if (c.cyc && t.nm == "renumber") bad("C06", c, t.nm.c_str(), "injection: " + msg);
            }
            if (!same(base[1], r, t.perm, ro, t.tscale, rel, rel, abst, msg)) {
                bad("C10", c, t.nm.c_str(), "production: " + msg);
                if (c.cyc && t.nm == "renumber") bad("C06", c, t.nm.c_str(), "production: " + msg);
            }
        }
    }

    // Covers: large networks with the exact solution of a small one.
    if (c.idx % 37 == 5 && wantAny({ "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C18", "C19" })) {
        double top = 0;
        for (const auto& f : c.p.flux) for (double q : f) top = std::max(top, std::fabs(q));
        const int pick = (int)((c.idx / 37 + seed) % 40);
        const int cells = c.cyc && top > 3 ? 300 : pick == 0 ? (c.cyc ? 70000 : 140000) : pick == 1 ? 70000 : pick < 12 ? 5000 : 300;
        runCover(c, 1 + cells / c.p.n, false, tu0, rng);
        const bool pairs = wantAny({ "C18", "C19" });
        if (c.f.order.size() + c.r.order.size() > 0) runCover(c, pairs ? 12 : pick < 2 ? 300 : 40, true, tu0, rng);
    }

    ++counters["cases"];
    if (c.cyc) ++counters["cyclic"];
    if (c.cap) ++counters["bound_matters"];
    if (c.f.order.size() + c.r.order.size() > 0) ++counters["with_wells"];
    if (c.f.order.size() > 1 || c.r.order.size() > 1) ++counters["several_ids"];
    if ((int)c.f.region.size() < c.p.n || (int)c.r.region.size() < c.p.n) ++counters["with_unreached"];
}

} // namespace

int main(int argc, char** argv) {
    const std::string in = opt(argc, argv, "--in", "");
    const std::uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const int part = std::atoi(opt(argc, argv, "--part", "0")), parts = std::atoi(opt(argc, argv, "--parts", "1"));
    const long long only = std::atoll(opt(argc, argv, "--only", "-1"));
    Progress pr; pr.open(opt(argc, argv, "--progress", ""));
    {
        std::stringstream ss(opt(argc, argv, "--props", "")); std::string t;
        while (std::getline(ss, t, ',')) if (!t.empty()) want.insert(t);
    }
    std::ifstream f(in);
    if (!f) { std::cerr << "cannot read " << in << "\n"; return 3; }
    std::string line; long long ln = 0;
    while (std::getline(f, line)) {
        const long long k = ln++;
        if (line.empty()) continue;
        if (only >= 0 ? k != only : (k % parts) != part) continue;
        pr.at(k);
        const Case c = readCase(parseLine(line));
        runCase(c, seed);
    }
    for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
    std::cout << "DONE " << mism << "\n";
    return 0;
}
