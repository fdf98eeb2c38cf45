// P05 footprint, P06 movement threshold, P20 configurations, P21 pose mathematics.
#include <cfloat>
#include <limits>
#include "monitors.hpp"
using namespace sm;

// ---------------------------------------------------------------- P05
namespace {
using Poly = std::vector<V3>;
// part of a convex polygon with sign * coordinate <= lim
Poly clip(const Poly& p, int axis, double sign, double lim) {
    Poly o;
    auto f = [&](const V3& v) { return sign * (axis == 0 ? v.x : v.y) - lim; };
    for (size_t k = 0; k < p.size(); k++) {
        const V3 &a = p[k], &b = p[(k + 1) % p.size()];
        double fa = f(a), fb = f(b);
        if (fa <= 0) o.push_back(a);
        if ((fa < 0 && fb > 0) || (fa > 0 && fb < 0)) o.push_back(a + (fa / (fa - fb)) * (b - a));
    }
    return o;
}
struct Span { bool any = false; double lo = 1e9, hi = -1e9; };
Span in_cell(const Poly& p, double cx, double cy, double half) {
    Poly q = clip(clip(clip(clip(p, 0, 1, cx + half), 0, -1, -(cx - half)), 1, 1, cy + half), 1, -1, -(cy - half));
    Span s;
    for (auto& v : q) { s.any = true; s.lo = std::min(s.lo, v.z); s.hi = std::max(s.hi, v.z); }
    return s;
}
std::vector<Poly> walls(const VF& pos, const VF& ori, const ss::Body& b, bool blade, double cxy) {
    Corners c = corners(pos, ori, b);
    if (!blade)
        return {{c.br, c.bl, c.tl, c.tr}, {c.br, c.bl, c.jl, c.jr}, {c.jr, c.br, c.tr}, {c.jl, c.bl, c.tl}};
    V3 n = cross(c.jl - c.jr, c.bl - c.jr);
    n = (cxy / norm(n)) * n;
    return {{c.br, c.bl, c.jl, c.jr}, {c.br + n, c.bl + n, c.jl + n, c.jr + n},
            {c.tr, c.tl, c.jl, c.jr}, {c.tr + n, c.tl + n, c.jl + n, c.jr + n}};
}
struct Footprint { long touched = 0, two = 0, optional = 0, gaps = 0; };
void check_footprint(const SO& s, const VF& pos, const VF& ori, const ss::Grid& g, const ss::Body& b, bool blade,
                     float tol, const char* when) {
    double cxy = g.cell_size_xy_, cz = g.cell_size_z_;
    auto ws = walls(pos, ori, b, blade, cxy);
    double size = 0;
    for (auto& w : ws) for (auto& p : w) for (auto& q : ws[0]) size = std::max(size, norm(p - q));
    double d = 2e-3 + (3.5 * tol * size + 4e-6 * grid_reach(g)) / cxy;          // cells
    double e = 2e-3 * cz + 3.5 * tol * size + 4e-6 * grid_reach(g);             // metres
    // an edge that runs through a corner of the cell (the corners of the body are drawn inwards by tol): which cells it crosses there is ambiguous
    auto through_corner = [&](const Poly& w, double cx, double cy) {
        for (size_t k = 0; k < w.size(); k++) {
            V3 a = w[k], b = w[(k + 1) % w.size()];
            double ux = b.x - a.x, uy = b.y - a.y, l2 = ux * ux + uy * uy;
            for (int q = 0; q < 4; q++) {
                double px = cx + (q & 1 ? 0.5 : -0.5) * cxy - a.x, py = cy + (q & 2 ? 0.5 : -0.5) * cxy - a.y;
                double t = l2 > 0 ? std::min(1.0, std::max(0.0, (px * ux + py * uy) / l2)) : 0;
                if (std::hypot(px - t * ux, py - t * uy) < 2e-4 * cxy + 3.5 * tol * size + 4e-6 * grid_reach(g)) return true;
            }
        }
        return false;
    };
    Footprint f;
    int nx = NX(s), ny = NY(s);
    double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
    for (auto& w : ws) for (auto& p : w) {
        lo[0] = std::min(lo[0], p.x); hi[0] = std::max(hi[0], p.x); lo[1] = std::min(lo[1], p.y); hi[1] = std::max(hi[1], p.y);
    }
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
        CellV c = cell(s, i, j);
        double cx = (i - g.half_length_x_) * cxy, cy = (j - g.half_length_y_) * cxy;
        bool far = cx + cxy < lo[0] || cx - cxy > hi[0] || cy + cxy < lo[1] || cy - cxy > hi[1];
        struct W { double lo0, lo1, hi0, hi1; bool sure; };     // bottoms in [lo0,lo1], tops in [hi0,hi1]
        std::vector<W> in;
        if (!far)
            for (auto& w : ws) {
                Span x = in_cell(w, cx, cy, (0.5 + d) * cxy);
                if (!x.any) continue;
                Span n = in_cell(w, cx, cy, (0.5 - d) * cxy);
                if (n.any && !through_corner(w, cx, cy)) in.push_back({x.lo - cz - e, n.lo + e, n.hi - e, x.hi + cz + e, true});
                else { in.push_back({x.lo - cz - e, x.hi + e, x.lo - e, x.hi + cz + e, false}); f.optional++; }
            }
        bool any = c.B(0) || c.B(2);
        if (in.empty()) {
            if (any) G.viol("layer away from the walls", "%s: cell (%d,%d) holds a body layer but no wall reaches it: %s", when, i, j, show(c).c_str());
            continue;
        }
        if (any) f.touched++;
        if (c.B(0) && c.B(2)) f.two++;
        bool three = false;      // three walls that may be pairwise disjoint
        auto apart = [](const W& a, const W& b) { return a.lo1 > b.hi0 || b.lo1 > a.hi0; };
        for (size_t x = 0; x < in.size(); x++) for (size_t y = x + 1; y < in.size(); y++) for (size_t z = y + 1; z < in.size(); z++)
            if (apart(in[x], in[y]) && apart(in[x], in[z]) && apart(in[y], in[z])) three = true;
        for (auto& w : in) {
            if (!w.sure) continue;
            bool ok = false;
            for (int l = 0; l < 4; l += 2) ok = ok || (c.B(l) && c.b[l] <= w.lo1 && c.b[l + 1] >= w.hi0);
            if (!ok) G.viol("wall not covered", "%s: cell (%d,%d): a wall spans heights %.6g to %.6g there (cell height %.4g) but the "
                            "layers do not contain it: %s", when, i, j, w.lo1 - e, w.hi0 + e, cz, show(c).c_str());
        }
        for (int l = 0; l < 4; l += 2) {
            if (!c.B(l)) continue;
            bool okb = false, okt = false;
            for (auto& w : in) {
                okb = okb || (c.b[l] >= w.lo0 && c.b[l] <= w.lo1);
                okt = okt || (c.b[l + 1] >= w.hi0 && c.b[l + 1] <= w.hi1);
            }
            if (!okb || !okt) {
                std::string t;
                for (auto& w : in) { char q[120]; snprintf(q, sizeof q, " wall %.6g..%.6g", w.lo1 - e, w.hi0 + e); t += q; }
                G.viol(okb ? "layer top off" : "layer bottom off", "%s: cell (%d,%d): layer %d is not bounded by a wall within one cell "
                       "height %.4g: %s;%s", when, i, j, l / 2, cz, show(c).c_str(), t.c_str());
            }
            if (!three) {     // a layer covers no definite gap between walls
                std::vector<std::pair<double, double>> sp;
                for (auto& w : in) sp.push_back({w.lo0, w.hi1});
                std::sort(sp.begin(), sp.end());
                double reach = sp[0].second;
                for (auto& q : sp) {
                    if (q.first > reach) {
                        f.gaps++;
                        if (c.b[l] < reach - 2 * e && c.b[l + 1] > q.first + 2 * e)
                            G.viol("disjoint walls merged", "%s: cell (%d,%d): layer %d spans the free space between walls from %.6g to "
                                   "%.6g: %s", when, i, j, l / 2, reach, q.first, show(c).c_str());
                    }
                    reach = std::max(reach, q.second);
                }
            }
        }
        if (c.B(0) && c.B(2) && c.b[1] + 0.5 * cz > c.b[2] && c.b[3] + 0.5 * cz > c.b[0])
            G.viol("touching layers", "%s: cell (%d,%d): the two layers overlap or touch: %s", when, i, j, show(c).c_str());
    }
    G.count("footprints checked"); G.count("cells with a layer", f.touched); G.count("cells with two layers", f.two);
    G.count("grazed walls left undecided", f.optional); G.count("gaps between walls", f.gaps);
    if (f.touched) G.nontrivial(mix(hash_bytes(pos.data(), 12), mix(hash_bytes(ori.data(), 16), f.touched)));
}
void p05_include(Rng& r) {
    ss::Grid g(0.4f, 0.4f, 4.0f, 0.1f, 0.05f);
    double cz = g.cell_size_z_;
    SO s(g);
    for (int k = 0; k < 4000 && G.viol_case < 3; k++) {
        int i = r.ri(0, NX(s) - 1), j = r.ri(0, NY(s) - 1);
        std::vector<std::pair<int, int>> ex;
        int base = r.ch(0.3) ? r.ri(-6, 0) : r.ri(-30, 30), n = r.ri(0, 2);
        int z = base;
        for (int q = 0; q < n; q++) { z += q ? r.ri(1, 6) : 0; int t = r.ri(1, 5); ex.push_back({z, z + t}); z += t; }
        for (int l = 0; l < 4; l++) s.body_[l][i][j] = 0;
        int first = r.ri(0, 1), one = r.ch(0.5);
        auto F = [&](int a) { return r.ch(0.5) ? g.cell_size_z_ * static_cast<float>(a) : static_cast<float>(a * cz); };
        for (int q = 0; q < n; q++) {
            int l = 2 * ((n == 1 ? one : first + q) % 2);
            s.body_[l][i][j] = F(ex[q].first); s.body_[l + 1][i][j] = F(ex[q].second);
        }
        int a = base + r.ri(-8, 20), b = a + r.ri(1, 7);
        SO old = s;
        ss::IncludeNewBodyPos(&s, i, j, F(a), F(b), 1e-5f);
        // union of everything that touches
        std::vector<std::pair<int, int>> want;
        std::pair<int, int> u{a, b};
        bool within = false;
        for (auto& e : ex) {
            if (e.first <= a && b <= e.second) within = true;
            if (a <= e.second && e.first <= b) u = {std::min(u.first, e.first), std::max(u.second, e.second)};
            else want.push_back(e);
        }
        if (within) want = ex; else want.push_back(u);
        std::vector<std::vector<std::pair<int, int>>> ok{want};
        if (want.size() == 3) {      // no room for a third layer: joins the closest one
            ok.clear();
            auto dist = [&](std::pair<int, int> e) { return a >= e.second ? a - e.second : e.first - b; };
            int d0 = dist(ex[0]), d1 = dist(ex[1]);
            for (int q = 0; q < 2; q++)
                if ((q ? d1 : d0) <= (q ? d0 : d1)) {
                    std::pair<int, int> m{std::min(a, ex[q].first), std::max(b, ex[q].second)};
                    ok.push_back({m, ex[1 - q]});
                }
            G.count("third disjoint interval");
        }
        std::vector<std::pair<double, double>> got;
        for (int l = 0; l < 4; l += 2)
            if (has_body(s, l, i, j)) got.push_back({s.body_[l][i][j] / cz, s.body_[l + 1][i][j] / cz});
        std::sort(got.begin(), got.end());
        bool fine = false;
        for (auto& o : ok) {
            std::sort(o.begin(), o.end());
            bool f = o.size() == got.size();
            for (size_t q = 0; f && q < o.size(); q++)
                f = std::abs(o[q].first - got[q].first) < 0.05 && std::abs(o[q].second - got[q].second) < 0.05;
            fine = fine || f;
        }
        if (!fine) {
            std::string t;
            for (auto& e : ex) t += " [" + std::to_string(e.first) + "," + std::to_string(e.second) + "]";
            std::string h;
            for (auto& e : got) { char q[60]; snprintf(q, sizeof q, " [%.3f,%.3f]", e.first, e.second); h += q; }
            G.viol("include", "adding the interval [%d,%d] (cells) to layers%s gave%s", a, b, t.c_str(), h.c_str());
        }
        for (int x = 0; x < NX(s); x++) for (int y = 0; y < NY(s); y++)
            if (x != i || y != j) for (int l = 0; l < 4; l++)
                if (memcmp(&s.body_[l][x][y], &old.body_[l][x][y], 4)) G.viol("include elsewhere", "another cell changed");
        G.count("intervals added");
        G.nontrivial(mix(mix(static_cast<uint64_t>(a - base + 50) * 64 + static_cast<uint64_t>(b - a), static_cast<uint64_t>(n)),
                         ex.empty() ? 0 : static_cast<uint64_t>(ex[0].second - ex[0].first) * 100 +
                         static_cast<uint64_t>(ex.back().second - base)));
    }
}
// The walls are those of one rigid body: its points and width are the ones it was created with.
struct Rigid {
    const ss::Body* b; VF j, bb, t; float w;
    explicit Rigid(const ss::Body* x) : b(x), j(x->j_pos_init_), bb(x->b_pos_init_), t(x->t_pos_init_), w(x->width_) {}
    void check(const char* where) {
        G.count("body kept rigid");
        if (b->j_pos_init_ != j || b->b_pos_init_ != bb || b->t_pos_init_ != t || b->width_ != w)
            G.viol("body deformed", "the %s changed the points or the width of the body itself (width %.9g, was %.9g; "
                   "joint at %.9g %.9g %.9g, was at %.9g %.9g %.9g)", where, b->width_, w, b->j_pos_init_[0],
                   b->j_pos_init_[1], b->j_pos_init_[2], j[0], j[1], j[2]);
    }
};
}  // namespace
static void p05_case() {
    Rng r = G.rng();
    if (G.case_idx % 24 == 5) return p05_include(r);
    ScenOpts so;
    so.terrain = 0;
    so.nmin = 10; so.nmax = 22;
    Scen sc = make_scen(r, so);
    if (G.case_idx % 3 == 0) {       // in a simulation
        sc.terrain_kind = r.ri(0, 8);
        Episode e(sc, r);
        G.context = sc.text();
        bool first = true; VF lp, lo;
        Rigid rg(e.body());
        e.play(nullptr, [&](Episode& ep, bool ret) {
            rg.check("step");
            if (ret) { first = false; lp = ep.pos; lo = ep.ori; }
            if (!first && (ret || ep.step_no % 4 == 0))
                check_footprint(ep.so, lp, lo, ep.grid, *ep.body(), sc.blade, sc.tol, "step");
        });
        G.sample("%s, %d steps", sc.text().c_str(), e.step_no);
        return;
    }
    Episode e(sc, r);
    G.context = sc.text();
    int n = 0;
    Rigid rg(e.body());
    for (int k = 0; k < 25 && G.viol_case < 3; k++) {
        VF p = {static_cast<float>(r.uf(-1, 1) * sc.gx), static_cast<float>(r.uf(-1, 1) * sc.gy), static_cast<float>(r.uf(-.4, .4) * sc.gz)};
        VF q;
        switch (r.ri(0, 4)) {
            case 0: q = axis_quat({0, 0, 1}, r.ri(0, 7) * 0.7853981633974483); break;               // aligned with the grid
            case 1: q = quat_mul(axis_quat({0, 0, 1}, r.ri(0, 3) * 1.5707963267948966),
                                 axis_quat({0, 1, 0}, r.uf(-3, 3))); break;
            case 2: q = quat_mul(axis_quat({0, 0, 1}, r.uf(-3.2, 3.2)), axis_quat({0, 1, 0}, r.ri(0, 3) * 1.5707963267948966)); break;
            default: q = random_quat(r);
        }
        if (r.ch(0.3)) {             // corners on cell centres, borders and whole heights
            for (int a = 0; a < 2; a++) p[a] = static_cast<float>(std::round(p[a] / sc.cxy * 2) * 0.5 * sc.cxy);
            p[2] = static_cast<float>(std::round(p[2] / sc.cz) * sc.cz);
        }
        e.margin = 3.6;
        if (!e.in_range(p, q)) continue;
        ss::SimParam sp(sc.repose, 3, r.ri(2, 7));
        if (e.blade) ss::CalcBodyPos(&e.so, p, q, e.grid, e.blade.get(), sp, sc.tol);
        else ss::CalcBodyPos(&e.so, p, q, e.grid, e.bucket.get(), sp, sc.tol);
        check_footprint(e.so, p, q, e.grid, *e.body(), sc.blade, sc.tol, "pose update");
        rg.check("pose update");
        n++;
    }
    G.sample("%s, %d poses", sc.text().c_str(), n);
}
static Reg r05({"P05", "case = one simulated history checked after its steps (1/3), 25 random and grid-aligned pose updates on one "
    "grid (2/3) or 4000 intervals added to a cell (1/24); every cell of the grid is compared with the walls clipped to its square; "
    "non-trivial = a pose whose footprint occupies cells, or an interval configuration, counted by hash", p05_case, 12000, 160000});

// ---------------------------------------------------------------- P06
namespace {
struct Threshold {
    bool have = false; VF pos, ori;         // pose remembered at the last acting step
    double disp(const VF& p, const VF& q, const ss::Body& b) const {
        auto a = corner_arr(corners(p, q, b)), c = corner_arr(corners(pos, ori, b));
        double m = 0;
        for (int k = 0; k < 6; k++) m = std::max(m, norm(a[k] - c[k]));
        return m;
    }
};
}  // namespace
// Movements whose distances are exact in floating point, so that the thresholds themselves are reached
static void p06_exact(Rng& r) {
    const float u = 1.0f / 64;
    float cxy = 10 * u, cz = r.ch(0.5) ? cxy : 5 * u;
    int thr = cz == cxy ? 50 : 25;               // half the smaller cell size in tenths of u
    ss::Grid g(24 * cxy, 24 * cxy, 60 * cz, cxy, cz);
    ss::SimParam sp(0.8f, r.ri(0, 2), 3);
    VF o{0, 0, 0}, j{0, 0, 0}, b{0, 0, -32 * u}, t{r.ch(0.5) ? 48 * u : -48 * u, 0, -32 * u};
    std::unique_ptr<ss::Bucket> bu;
    std::unique_ptr<ss::Blade> bl;
    if (r.ch(0.5)) bu = std::make_unique<ss::Bucket>(o, j, b, t, 32 * u); else bl = std::make_unique<ss::Blade>(o, j, b, t, 32 * u);
    SO so(g);
    ss::SoilDynamics sim;
    ss::rng.seed(static_cast<unsigned>(r.next()));
    VF q{1, 0, 0, 0};
    int at[3] = {r.ri(-20, 20), r.ri(-20, 20), 64 + r.ri(0, 20)}, last[3] = {0, 0, 0};
    const int T[5][3] = {{5, 0, 0}, {3, 4, 0}, {0, 3, 4}, {4, 0, 3}, {0, 0, 5}};
    char buf[120];
    for (int k = 0; k < 40 && G.viol_case < 3; k++) {
        // the position is kept in tenths of u; the displacements are multiples of a Pythagorean triple of size 5
        int mult[] = {5, 10, 20, 40, 3, 4, 9, 11, 6, 19, 21, 41, 39, 45};
        const int* d = T[r.ri(0, 4)];
        int m = r.ch(0.75) ? mult[r.ri(0, 3)] : mult[r.ri(0, 13)], next[3];
        int p[3] = {0, 1, 2};
        if (r.ch(0.5)) { p[0] = 1; p[1] = 0; }
        for (int a = 0; a < 3; a++) next[a] = (k == 0 ? 10 * at[a] : last[a]) + (k == 0 ? 0 : (r.ch(0.5) ? 1 : -1) * d[p[a]] * m);
        bool exact = true;
        VF pos(3);
        for (int a = 0; a < 3; a++) {
            // only positions that are whole multiples of u / 2 are exact
            if (next[a] % 5) exact = false;
            pos[a] = static_cast<float>(next[a] / 10.0 / 64);
            if (std::abs(next[a] - (a == 2 ? 640 : 0)) > 700) exact = false;
        }
        if (!exact) continue;
        double dist = std::sqrt(std::pow(next[0] - last[0], 2) + std::pow(next[1] - last[1], 2) + std::pow(next[2] - last[2], 2));
        SO before = so;
        long w0 = W.n[W_MOVE];
        bool ret = bu ? sim.Step(&so, pos, q, g, bu.get(), sp, 1e-5f) : sim.Step(&so, pos, q, g, bl.get(), sp, 1e-5f);
        bool warned = W.n[W_MOVE] > w0;
        snprintf(buf, sizeof buf, "body moved by exactly %.4g of half the smaller cell", k == 0 ? 0.0 : dist / thr);
        G.context = buf;
        G.count("exact movements");
        bool act = k == 0 || dist >= thr, warn = k > 0 && dist > 4 * thr;
        if (k > 0 && dist == thr) G.count("movements of exactly half a cell");
        if (k > 0 && dist == 4 * thr) G.count("movements of exactly two cells");
        G.nontrivial(mix(static_cast<uint64_t>(dist * 16), static_cast<uint64_t>(next[0] * 100003 + next[1])));
        if (ret != act) G.viol(act ? "refused" : "acted", "%s: the step returned %d", buf, ret);
        if (warned != warn) G.viol(warn ? "no warning" : "needless warning", "%s: warned %d", buf, warned);
        if (!ret && !same_all(before, so)) G.viol("refused step changed state", "a step that returned false changed the outputs");
        if (ret) for (int a = 0; a < 3; a++) last[a] = next[a];
    }
}
static void p06_case() {
    Rng r = G.rng();
    if (G.case_idx % 16 == 5) return p06_exact(r);
    ScenOpts so;
    so.nmin = 9; so.nmax = 14; so.steps_min = 30; so.steps_max = 60; so.iters = r.ri(0, 3);
    so.program = r.ch(0.5) ? 3 : -1;
    Scen sc = make_scen(r, so);
    bool tuned = r.ch(0.5);
    Episode e(sc, r);
    G.context = sc.text();
    Threshold t;
    double thr = 0.5 * std::min(sc.cxy, sc.cz);
    int refused = 0, acted = 0, streak = 0;
    for (e.step_no = 0; e.step_no < sc.steps && G.viol_case < 3; e.step_no++) {
        VF p, q;
        if (tuned && t.have) {          // displacement of the farthest corner tuned around one of the thresholds
            V3 ax{r.uf(-1, 1), r.uf(-1, 1), r.uf(-1, 1)}, v{r.uf(-1, 1), r.uf(-1, 1), r.uf(-1, 1)};
            double a = 0.05, w = r.ch(0.3) ? 0 : r.uf(-1, 1) / std::max(0.1, static_cast<double>(sc.width));
            if (r.ch(0.25)) { v = {0, 0, 0}; (r.ch(0.5) ? v.x : r.ch(0.5) ? v.y : v.z) = r.ch(0.5) ? 1 : -1; w = 0; }
            if (r.ch(0.2) && w != 0) v = {0, 0, 0};
            double target = thr * (r.ch(0.6) ? 1 : 4) * (r.ch(0.7) ? r.uf(0.9, 1.1) : r.uf(0.3, 1.5));
            for (int it = 0; it < 6; it++) {
                p = {static_cast<float>(t.pos[0] + a * v.x), static_cast<float>(t.pos[1] + a * v.y), static_cast<float>(t.pos[2] + a * v.z)};
                q = w != 0 ? quat_mul(t.ori, axis_quat(ax, a * w)) : t.ori;
                double m = t.disp(p, q, *e.body());
                if (m < 1e-12) break;
                a *= std::min(10.0, std::max(0.05, target / m));
            }
            if (!e.in_range(p, q)) { tuned = r.ch(0.9); continue; }
        } else {
            if (!e.propose()) break;
            p = e.pos; q = e.ori;
        }
        if (e.step_no == 1 && sc.seed_soil) e.add_body_soil(0.4);
        double d = t.have ? t.disp(p, q, *e.body()) : 1e9;
        double amb = 1e-4 * thr + 6e-6 * (grid_reach(e.grid) + sc.width);
        SO before = e.so;
        VF bp = e.body()->pos_, bo = e.body()->ori_;
        long w0 = W.n[W_MOVE];
        // the orientation is handed over exactly as the oracle knows it
        bool ret = e.blade ? e.sim.Step(&e.so, p, q, e.grid, e.blade.get(), e.param, sc.tol)
                           : e.sim.Step(&e.so, p, q, e.grid, e.bucket.get(), e.param, sc.tol);
        long warned = W.n[W_MOVE] - w0;
        G.count("steps");
        if (!t.have) {
            if (!ret) G.viol("first step refused", "the first step of a simulation did not act");
            if (warned) G.viol("first step warned", "the first step warned about the size of the movement");
        } else {
            if (d > thr + amb && !ret) G.viol("refused", "a corner moved by %.6g m (threshold %.6g, %.3f of it) but the step did not act", d, thr, d / thr);
            if (d < thr - amb && ret) G.viol("acted", "no corner moved by more than %.6g m (threshold %.6g, %.3f of it) but the step acted", d, thr, d / thr);
            if (d > 4 * thr + amb && !warned) G.viol("no warning", "a corner moved by %.6g m, more than two cells (%.6g), without a warning", d, 4 * thr);
            if (d < 4 * thr - amb && warned) G.viol("needless warning", "warned although no corner moved by more than %.6g m (two cells: %.6g)", d, 4 * thr);
            if (warned > 1) G.viol("repeated warning", "%ld warnings for one step", warned);
            if (std::abs(d - thr) < 0.1 * thr) G.count("steps within a tenth of the threshold");
            if (std::abs(d - 4 * thr) < 0.4 * thr) G.count("steps within a tenth of the warning threshold");
        }
        if (!ret) {
            refused++; streak++;
            if (!same_all(before, e.so)) G.viol("refused step changed state", "a step that returned false changed the outputs");
            if (bp != e.body()->pos_ || bo != e.body()->ori_) G.viol("refused step moved body", "a step that returned false changed the remembered pose");
        } else {
            acted++;
            if (streak > 1) G.count("accumulated small movements that finally acted");
            streak = 0;
            if (e.body()->pos_ != p || e.body()->ori_ != q) G.viol("pose not remembered", "a step that acted did not remember its pose");
            t.have = true; t.pos = p; t.ori = q;
            if (tuned) { e.pos = p; e.ori = q; }
        }
        G.nontrivial(mix(static_cast<uint64_t>(std::min(1e15, d / thr * 1e6)), hash_bytes(q.data(), 16)));
    }
    G.count("refused", refused); G.count("acted", acted);
    G.sample("%s: %d steps acted, %d refused", sc.text().c_str(), acted, refused);
}
static Reg r06({"P06", "case = one history of up to 60 steps, half of them with the largest corner displacement tuned to within a tenth of "
    "a threshold; non-trivial = a step, counted by displacement and orientation", p06_case, 8000, 120000});

// ---------------------------------------------------------------- P20
namespace {
template <typename F> int outcome(F f) {     // 0 accepted, 1 invalid_argument, 2 other
    try { f(); return 0; } catch (const std::invalid_argument&) { return 1; } catch (...) { return 2; }
}
float jig(Rng& r, double x) {        // x, or a float next to it, or clearly away from it
    float f = static_cast<float>(x);
    switch (r.ri(0, 5)) {
        case 0: return std::nextafterf(f, 1e30f);
        case 1: return std::nextafterf(f, -1e30f);
        case 2: return static_cast<float>(f * r.uf(0.3, 3));
        default: return f;
    }
}
void p20_grid(Rng& r) {
    float cxy = static_cast<float>(std::pow(10.0, r.uf(-2, 1))), cz = static_cast<float>(cxy * (r.ch(0.3) ? 1.0 : r.uf(0.1, 1)));
    if (r.ch(0.15)) { cxy = 0.05f; cz = 0.01f; }
    int n[3] = {r.ri(1, 45), r.ri(1, 45), r.ri(1, 120)};
    if (r.ch(0.01)) { int a = r.ri(0, 1); n[a] = r.ri(400, 6000); n[1 - a] = r.ri(1, 8); }       // a long strip
    float s[3];
    for (int k = 0; k < 3; k++) s[k] = static_cast<float>((k == 2 ? cz : cxy) * (n[k] + (r.ch(0.5) ? 0 : r.uf(-0.49, 0.49))));
    for (int k = 0; k < 3; k++) if (r.ch(0.12)) s[k] = jig(r, k == 2 ? cz : cxy);
    if (r.ch(0.15)) cz = jig(r, cxy);
    if (r.ch(0.15)) {
        float bad = r.ch(0.5) ? 0.0f : r.ch(0.5) ? -1e-6f : static_cast<float>(-r.uf(0, 10));
        switch (r.ri(0, 4)) { case 0: cxy = bad; break; case 1: cz = bad; break; default: s[r.ri(0, 2)] = bad; }
    }
    if (r.ch(0.03)) s[r.ri(0, 2)] = 1e-30f;
    bool bad = !(cz > 0) || !(cxy > 0) || !(s[0] > 0) || !(s[1] > 0) || !(s[2] > 0) || cz > cxy || s[0] < cxy || s[1] < cxy || s[2] < cz;
    if (!bad && ((s[0] / cxy) * (s[1] / cxy) > 60000 || s[2] / cz > 4000)) return;
    G.context = "grid " + std::to_string(s[0]) + " " + std::to_string(s[1]) + " " + std::to_string(s[2]) + " cells " + std::to_string(cxy) + " " + std::to_string(cz);
    std::unique_ptr<ss::Grid> g;
    int o = outcome([&] { g = std::make_unique<ss::Grid>(s[0], s[1], s[2], cxy, cz); });
    G.count(bad ? "invalid grids" : "valid grids");
    G.nontrivial(mix(hash_bytes(s, 12), mix(hash_bytes(&cxy, 4), hash_bytes(&cz, 4))));
    if (bad != (o == 1) || o == 2) {
        G.viol(bad ? "bad grid accepted" : "good grid rejected", "grid sizes %.9g %.9g %.9g cells %.9g %.9g: %s", s[0], s[1], s[2], cxy, cz,
               o == 0 ? "accepted" : o == 1 ? "rejected" : "other exception");
        return;
    }
    if (bad) return;
    int hl[3] = {g->half_length_x_, g->half_length_y_, g->half_length_z_};
    for (int k = 0; k < 3; k++) {
        double q = static_cast<double>(s[k]) / (k == 2 ? cz : cxy);
        if (std::abs(hl[k] - q) > 0.5 + 1e-4) G.viol("cell count", "direction %d: %d cells for a ratio of %.6g", k, hl[k], q);
    }
    if (g->cell_size_xy_ != cxy || g->cell_size_z_ != cz) G.viol("cell size", "cell sizes not stored");
    if (std::abs(g->cell_area_ - static_cast<double>(cxy) * cxy) > 1e-5 * cxy * cxy ||
        std::abs(g->cell_volume_ - static_cast<double>(cxy) * cxy * cz) > 1e-5 * cxy * cxy * cz) G.viol("cell area", "cell area or volume wrong");
    auto table = [&](const char* what, const auto& v, int h, double c, double off) {
        if (static_cast<int>(v.size()) != 2 * h + 1) return G.viol("table size", "%s has %zu entries for %d cells each side", what, v.size(), h);
        for (int i = 0; i <= 2 * h; i++) {
            double want = (i - h + off) * c;
            if (!(std::abs(v[i] - want) <= 1e-4 * c * (1 + h / 400.0)))
                return G.viol("table value", "%s[%d] is %.7g, the cell is at %.7g", what, i, static_cast<double>(v[i]), want);
        }
    };
    table("vect_x", g->vect_x_, hl[0], cxy, 0);
    table("vect_y", g->vect_y_, hl[1], cxy, 0);
    table("vect_z", g->vect_z_, hl[2], cz, 1);
    SO so(*g);
    auto flat = [&](const std::vector<std::vector<float>>& m) {
        if (static_cast<int>(m.size()) != 2 * hl[0] + 1) return false;
        for (auto& row : m) {
            if (static_cast<int>(row.size()) != 2 * hl[1] + 1) return false;
            for (float f : row) if (f != 0) return false;
        }
        return true;
    };
    bool ok = flat(so.terrain_) && so.body_.size() == 4 && so.body_soil_.size() == 4 && so.body_soil_pos_.empty() && !so.equilibrium_;
    for (int l = 0; ok && l < 4; l++) ok = flat(so.body_[l]) && flat(so.body_soil_[l]);
    for (auto a : {so.body_area_, so.relax_area_, so.impact_area_})
        ok = ok && a[0][0] == 1 && a[1][0] == 1 && a[0][1] == 2 * hl[0] && a[1][1] == 2 * hl[1];
    if (!ok) G.viol("new output", "a new output state is not empty or its areas do not span the interior");
}
void p20_body(Rng& r) {
    VF p[4];
    for (auto& v : p) { v.resize(3); for (float& x : v) x = static_cast<float>(r.ch(0.3) ? r.ri(-1, 1) : r.uf(-3, 3)); }
    float w = static_cast<float>(r.uf(0.01, 5));
    int kind = r.ri(0, 8);
    if (kind == 0) { auto& v = p[r.ri(0, 3)]; if (r.ch(0.5)) v.pop_back(); else v.push_back(1); if (r.ch(0.2)) v.clear(); }
    if (kind == 1) { int a = r.ri(1, 3), b = 1 + a % 3; p[a] = p[b]; }
    if (kind == 1 && r.ch(0.3)) p[0] = p[r.ri(1, 3)];                                               // two equal points, one at the origin
    if (kind == 1 && r.ch(0.1)) p[1] = p[2] = p[3];
    if (kind == 2) w = r.ch(0.5) ? 0.0f : static_cast<float>(-r.uf(0, 2));
    if (kind == 3) { int a = r.ri(1, 3), b = 1 + a % 3; p[a] = p[b]; p[a][r.ri(0, 2)] += 0.001f; }   // nearly equal is fine
    if (kind == 4) { int a = r.ri(1, 3); p[0] = p[a]; }                                             // a point at the origin is fine
    if (kind == 5) w = FLT_MIN;
    if (kind == 6 || kind == 7) {       // three points on a line, or (nearly) so
        int a = r.ri(1, 3), b = 1 + a % 3, c = 6 - a - b;
        float u = static_cast<float>(r.ch(0.5) ? r.ri(-2, 3) : r.uf(-1, 2));
        for (int k = 0; k < 3; k++) p[c][k] = p[a][k] + u * (p[b][k] - p[a][k]);
        if (kind == 7) p[c][r.ri(0, 2)] += static_cast<float>((r.ch(0.5) ? 1 : -1) * std::pow(10.0, r.uf(-3, 0)));
    }
    bool bad = !(w > 0);
    for (auto& v : p) bad = bad || v.size() != 3;
    if (!bad) bad = p[1] == p[2] || p[1] == p[3] || p[2] == p[3];
    if (!bad) {                         // the three points span a plane
        V3 u = v3(p[2]) - v3(p[1]), v = v3(p[3]) - v3(p[1]), x = v3(p[3]) - v3(p[2]);
        double area = norm(cross(u, v)), sine = area / (norm(u) * norm(v)), flat = area / (norm(u) * norm(v) * norm(x)) * std::min({norm(u), norm(v), norm(x)});
        if (std::max(sine, flat) < 2e-6) { bad = true; G.count("aligned points"); }
        else if (flat < 1e-4) { G.count("nearly aligned points: not judged"); return; }
    }
    bool blade = r.ch(0.5);
    std::unique_ptr<ss::Bucket> bu; std::unique_ptr<ss::Blade> bl;
    int o = outcome([&] {
        if (blade) bl = std::make_unique<ss::Blade>(p[0], p[1], p[2], p[3], w);
        else bu = std::make_unique<ss::Bucket>(p[0], p[1], p[2], p[3], w);
    });
    G.count(bad ? "invalid bodies" : "valid bodies");
    G.nontrivial(mix(static_cast<uint64_t>(kind), hash_bytes(p[1].data(), p[1].size() * 4)));
    if (bad != (o == 1) || o == 2) {
        G.viol(bad ? "bad body accepted" : "good body rejected", "kind %d, width %.9g: %s", kind, w, o == 0 ? "accepted" : o == 1 ? "rejected" : "other exception");
        return;
    }
    if (bad) return;
    ss::Body* b = blade ? static_cast<ss::Body*>(bl.get()) : bu.get();
    const VF* st[3] = {&b->j_pos_init_, &b->b_pos_init_, &b->t_pos_init_};
    for (int k = 0; k < 3; k++)
        for (int a = 0; a < 3; a++)
            if (st[k]->size() != 3 || std::abs((*st[k])[a] - (static_cast<double>(p[k + 1][a]) - p[0][a])) > 1e-5)
                { G.viol("body point", "point %d is not stored relative to the origin", k); return; }
    if (b->width_ != w) G.viol("body width", "width %.9g stored as %.9g", w, b->width_);
    for (float x : b->pos_) if (x != 0) G.viol("body pose", "a new body has a position");
    for (float x : b->ori_) if (x != 0) G.viol("body pose", "a new body has an orientation");
}
void p20_param(Rng& r) {
    float a = static_cast<float>(r.ch(0.3) ? r.uf(-0.5, 2.2) : r.uf(0, 1.57));
    if (r.ch(0.1)) a = 0;
    if (r.ch(0.05)) a = -FLT_MIN;
    if (r.ch(0.05)) a = 1.5707962f;
    if (r.ch(0.05)) a = 1.5708f;
    int it = r.ch(0.2) ? r.ri(-3, 2) : r.ri(0, 1000), bf = r.ch(0.4) ? r.ri(-2, 4) : r.ri(2, 60);
    if (std::abs(a - 1.5707963267948966) < 1e-7) return;     // the float nearest to pi/2 lies above it
    bool bad = a < 0 || a > 1.5707963267948966 || it < 0 || bf < 2;
    std::unique_ptr<ss::SimParam> p;
    int o = outcome([&] { p = std::make_unique<ss::SimParam>(a, it, bf); });
    G.count(bad ? "invalid parameters" : "valid parameters");
    G.nontrivial(mix(hash_bytes(&a, 4), static_cast<uint64_t>(it * 1000 + bf)));
    if (bad != (o == 1) || o == 2)
        G.viol(bad ? "bad parameters accepted" : "good parameters rejected", "repose %.9g iterations %d buffer %d: %s", a, it, bf,
               o == 0 ? "accepted" : o == 1 ? "rejected" : "other exception");
    else if (!bad && (p->repose_angle_ != a || p->max_iterations_ != it || p->cell_buffer_ != bf))
        G.viol("parameters", "parameters not stored");
}
}  // namespace
static void p20_case() {
    Rng r = G.rng();
    for (int k = 0; k < 40; k++) {
        G.context.clear();
        switch (k % 3) { case 0: p20_grid(r); break; case 1: p20_body(r); break; default: p20_param(r); }
    }
    if (G.case_idx == 0) {     // documented defaults
        G.context = "defaults";
        ss::Grid g; ss::SimParam p; ss::Bucket b; ss::Blade l; SO s;
        if (g.half_length_x_ != 80 || g.half_length_y_ != 80 || g.half_length_z_ != 400 || g.cell_size_xy_ != 0.05f || g.cell_size_z_ != 0.01f)
            G.viol("default grid", "the default grid is not 4 m with cells of 0.05 m and 0.01 m");
        if (p.repose_angle_ != 0.85f || p.max_iterations_ != 10 || p.cell_buffer_ != 4) G.viol("default parameters", "default parameters differ");
        if (b.width_ != 0.5f || b.t_pos_init_ != VF{0.7f, 0, -0.5f}) G.viol("default bucket", "default bucket differs");
        if (l.width_ != 4.5f || l.t_pos_init_ != VF{1.6f, 0, -0.4f}) G.viol("default blade", "default blade differs");
        if (NX(s) != 161 || NY(s) != 161) G.viol("default output", "default output has another size");
    }
    G.sample("40 constructions, last context: %s", G.context.c_str());
}
static Reg r20({"P20", "case = 40 constructions of grids, bodies and parameter sets at, next to and away from every documented limit; the "
    "verdict, the stored values, the position tables and the new output state are compared; non-trivial = a construction, counted by "
    "its arguments", p20_case, 30000, 60000});

// ---------------------------------------------------------------- P21
namespace {
double dist(const VF& a, V3 b) { return norm(v3(a) - b); }
VF rnd3(Rng& r, double m) { return {static_cast<float>(r.uf(-m, m)), static_cast<float>(r.uf(-m, m)), static_cast<float>(r.uf(-m, m))}; }
VF ax_q(int axis, double a) {       // quaternion of the rotation by a about an axis, as q v q^-1
    VF q = {static_cast<float>(std::cos(a / 2)), 0, 0, 0};
    q[1 + axis] = static_cast<float>(std::sin(a / 2));
    return q;
}
// elementary rotation by a
V3 el(int axis, double a, V3 v) {
    double c = std::cos(a), s = std::sin(a);
    if (axis == 0) return {v.x, c * v.y - s * v.z, s * v.y + c * v.z};
    if (axis == 1) return {c * v.x + s * v.z, v.y, -s * v.x + c * v.z};
    return {c * v.x - s * v.y, s * v.x + c * v.y, v.z};
}
}  // namespace
static void p21_case() {
    Rng r = G.rng();
    for (int k = 0; k < 60 && G.viol_case < 3; k++) {
        VF q = random_quat(r), p = random_quat(r);
        if (r.ch(0.2)) { q = {0, 0, 0, 0}; q[r.ri(0, 3)] = r.ch(0.5) ? 1.0f : -1.0f; }
        if (r.ch(0.1)) q = axis_quat({r.uf(-1, 1), r.uf(-1, 1), r.uf(-1, 1)}, r.uf(-1e-3, 1e-3));
        double m = std::pow(10.0, r.uf(-2, 1.3));
        VF a = rnd3(r, m), b = rnd3(r, m);
        double t = 4e-6 * m;
        auto R = [&](const VF& o, const VF& v) { return ss::CalcRotationQuaternion(o, v); };
        VF ra = R(q, a), rb = R(q, b);
        G.nontrivial(mix(hash_bytes(q.data(), 16), hash_bytes(a.data(), 12)));
        G.count("rotations");
        if (dist(ra, rot(q, v3(a))) > t)
            G.viol("rotation", "rotating (%.6g,%.6g,%.6g) by (%.6g,%.6g,%.6g,%.6g) gave (%.6g,%.6g,%.6g)", a[0], a[1], a[2], q[0], q[1], q[2], q[3],
                   ra[0], ra[1], ra[2]);
        if (std::abs(norm(v3(ra)) - norm(v3(a))) > t) G.viol("length", "a rotation changed a length by %.3g", norm(v3(ra)) - norm(v3(a)));
        if (std::abs(dot(v3(ra), v3(rb)) - dot(v3(a), v3(b))) > 6 * t * m) G.viol("angle", "a rotation changed a scalar product");
        if (dist(R(q, {static_cast<float>(cross(v3(a), v3(b)).x), static_cast<float>(cross(v3(a), v3(b)).y), static_cast<float>(cross(v3(a), v3(b)).z)}),
                 cross(v3(ra), v3(rb))) > 12 * t * m) G.viol("handedness", "a rotation does not commute with the vector product");
        VF s = q;
        float f = static_cast<float>(std::pow(10.0, r.uf(-2, 2)) * (r.ch(0.5) ? 1 : -1));
        for (float& x : s) x *= f;
        if (dist(R(s, a), v3(ra)) > 2 * t) G.viol("scale", "scaling the quaternion by %.4g changed the rotation", f);
        VF cj = {q[0], -q[1], -q[2], -q[3]};
        if (dist(R(cj, ra), v3(a)) > 2 * t) G.viol("conjugate", "the conjugate does not undo the rotation");
        VF pq = ss::MultiplyQuaternion(q, p);
        if (dist(R(pq, a), v3(R(p, ra))) > 3 * t) G.viol("composition", "the product of two quaternions does not compose their rotations");
        VF own = quat_mul(q, p);
        for (int c = 0; c < 4; c++) if (std::abs(pq[c] - own[c]) > 2e-6) G.viol("product", "component %d of a quaternion product is %.7g, not %.7g", c, pq[c], own[c]);
        VF qs = random_quat(r);
        float fa = static_cast<float>(r.uf(-4, 4));
        for (float& x : qs) x *= fa;
        VF m1 = ss::MultiplyQuaternion(qs, p), m2 = quat_mul(qs, p);
        for (int c = 0; c < 4; c++) if (std::abs(m1[c] - m2[c]) > 1e-5) G.viol("product", "component %d of a quaternion product is %.7g, not %.7g", c, m1[c], m2[c]);
        // Euler angles
        double A[3] = {r.uf(-7, 7), r.uf(-7, 7), r.uf(-7, 7)};
        if (r.ch(0.3)) A[r.ri(0, 2)] = 0;
        if (r.ch(0.3)) A[r.ri(0, 2)] = r.ri(-4, 4) * 1.5707963267948966;
        VF fA = {static_cast<float>(A[0]), static_cast<float>(A[1]), static_cast<float>(A[2])};
        VF e = ss::AngleToQuat(fA);
        G.count("Euler conversions");
        double n2 = 0;
        for (float x : e) n2 += static_cast<double>(x) * x;
        if (e.size() != 4 || std::abs(n2 - 1) > 1e-5) G.viol("Euler unit", "the quaternion of (%.5g,%.5g,%.5g) has squared norm %.7g", A[0], A[1], A[2], n2);
        if (e[0] < 0) G.viol("Euler sign", "the quaternion of (%.5g,%.5g,%.5g) has real part %.5g", A[0], A[1], A[2], e[0]);
        // q = qz(A0) qy(A1) qx(A2); the pose rotation is by its conjugate
        V3 v = el(0, -fA[2], el(1, -fA[1], el(2, -fA[0], v3(a))));
        if (dist(R(e, a), v) > 8 * t)
            G.viol("Euler", "the quaternion of the angles (%.5g,%.5g,%.5g) does not rotate like the three elementary rotations", A[0], A[1], A[2]);
        (void)ax_q;
        // corners and body frame
        double L = std::pow(10.0, r.uf(-2, 1));
        VF o = rnd3(r, L), j, bb, tt;
        do { j = rnd3(r, L); bb = rnd3(r, L); tt = rnd3(r, L); }
        while (norm(cross(v3(bb) - v3(j), v3(tt) - v3(j))) < 0.15 * L * L);
        float w = static_cast<float>(L * r.uf(0.1, 3));
        ss::Bucket body(o, j, bb, tt, w);
        VF pos = rnd3(r, 3 * L), ori = q;
        if (r.ch(0.3)) for (float& x : ori) x *= f;
        auto [jr, jl, br, bl, tr, tl] = ss::CalcBodyCornerPos(pos, ori, &body);
        auto want = corner_arr(corners(pos, ori, body));
        const VF* got[6] = {&jr, &jl, &br, &bl, &tr, &tl};
        static const char* N[6] = {"joint right", "joint left", "base right", "base left", "teeth right", "teeth left"};
        double tc = 4e-5 * (L + w);
        G.count("corner sets");
        for (int c = 0; c < 6; c++)
            if (!(dist(*got[c], want[c]) < tc)) G.viol("corner", "the %s corner is off by %.4g m (body size %.3g)", N[c], dist(*got[c], want[c]), L);
        VF x1 = rnd3(r, L), x2 = rnd3(r, L), x3 = rnd3(r, L);
        if (norm(cross(v3(x2) - v3(x1), v3(x3) - v3(x1))) > 0.1 * L * L) {
            V3 n = cross(v3(x2) - v3(x1), v3(x3) - v3(x1));
            n = (1 / norm(n)) * n;
            if (dist(ss::CalcNormal(x1, x2, x3), n) > 5e-5) G.viol("normal", "the normal of three points is off by %.4g", dist(ss::CalcNormal(x1, x2, x3), n));
        }
        float cxy = static_cast<float>(r.ch(0.5) ? 0.05 : r.uf(0.02, 0.5));
        int nx = r.ri(2, 40), ny = r.ri(2, 40);
        ss::Grid g(nx * cxy, ny * cxy, 30 * cxy, cxy, cxy);
        body.pos_ = pos; body.ori_ = ori;
        int ii = r.ri(0, 2 * nx), jj = r.ri(0, 2 * ny);
        float z = static_cast<float>(r.uf(-5, 5) * L);
        VF fr = ss::CalcBodyFramePos(ii, jj, z, g, &body);
        V3 back = rot(ori, v3(fr)) + v3(pos), cell = cell_pos(g, ii, jj, z);
        G.count("body frame conversions");
        if (!(norm(back - cell) < 1e-5 * (norm(cell) + 6 * L) + 1e-3 * cxy))
            G.viol("body frame", "posing the body-frame point of cell (%d,%d) at height %.4g gives a point %.4g m away", ii, jj, z, norm(back - cell));
        V3 there = irot(ori, cell - v3(pos));
        if (!(norm(v3(fr) - there) < 1e-5 * (norm(cell) + 6 * L) + 1e-3 * cxy)) G.viol("body frame", "the body-frame point is off by %.4g m", norm(v3(fr) - there));
        if (k == 0) G.sample("q (%.4g,%.4g,%.4g,%.4g), Euler (%.4g,%.4g,%.4g), body size %.3g", q[0], q[1], q[2], q[3], A[0], A[1], A[2], L);
    }
}
static Reg r21({"P21", "case = 60 random poses: rotations, products, Euler conversions, corners and body-frame conversions compared with a "
    "double-precision model and with the algebraic laws; non-trivial = a rotation, counted by quaternion and point", p21_case, 40000, 60000});
