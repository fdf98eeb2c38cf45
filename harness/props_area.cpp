// P15: what a step may touch.
#include "monitors.hpp"
using namespace sm;

namespace {
struct Box { int a[2][2]; };
std::string show(const int (*a)[2]) {
    char b[100];
    snprintf(b, sizeof b, "[%d,%d]x[%d,%d]", a[0][0], a[0][1], a[1][0], a[1][1]);
    return b;
}
void inside_grid(const SO& s, const char* what, const int (*a)[2], const char* when) {
    for (int k = 0; k < 2; k++) {
        int n = k == 0 ? NX(s) : NY(s);
        if (a[k][0] < 1 || a[k][1] > n - 1)
            G.viol(std::string(what) + " leaves the interior", "%s %s: %s does not lie within the interior of a grid of %d x %d cells",
                   when, what, show(a).c_str(), NX(s), NY(s));
    }
}
// Expected bound; two values when the rounding is too close to call
void expect_bound(const char* key, const char* what, double v, double lim, bool low, int got, double amb) {
    auto f = [&](double x) {
        double q = std::round(x);
        return static_cast<int>(low ? std::max(q, lim) : std::min(q, lim));
    };
    int lo = f(v - amb), hi = f(v + amb);
    if (got < lo || got > hi)
        G.viol(key, "%s bound is %d, the body's bounding box with its buffer gives %d%s", what, got, lo,
               lo == hi ? "" : " or one more");
}
// every box the four (two) faces may reach, in double precision
void body_area_ok(const SO& s, const VF& pos, const VF& ori, const ss::Grid& g, const ss::Body& b, bool blade,
                  int buffer, float tol, const char* when) {
    auto arr = corner_arr(corners(pos, ori, b));
    std::vector<V3> pts(arr.begin(), arr.end());
    double size = 0;
    for (auto& p : pts) for (auto& q : pts) size = std::max(size, norm(p - q));
    if (blade) {
        Corners c = corners(pos, ori, b);
        V3 n = cross(c.jl - c.jr, c.bl - c.jr);
        n = (1.0 / norm(n)) * n;
        for (auto& p : arr) pts.push_back(p + static_cast<double>(g.cell_size_xy_) * n);
    }
    double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
    for (auto& p : pts) {
        lo[0] = std::min(lo[0], p.x); hi[0] = std::max(hi[0], p.x);
        lo[1] = std::min(lo[1], p.y); hi[1] = std::max(hi[1], p.y);
    }
    double amb = (3 * tol * size + 4e-6 * grid_reach(g) + 1e-5 * size) / g.cell_size_xy_ + 1e-4;
    for (int k = 0; k < 2; k++) {
        double half = k == 0 ? g.half_length_x_ : g.half_length_y_;
        char w[60];
        snprintf(w, sizeof w, "%s: body area lower %c", when, "xy"[k]);
        expect_bound("body area", w, lo[k] / g.cell_size_xy_ + half - buffer, 1, true, s.body_area_[k][0], amb);
        snprintf(w, sizeof w, "%s: body area upper %c", when, "xy"[k]);
        expect_bound("body area", w, hi[k] / g.cell_size_xy_ + half + buffer, 2 * half, false, s.body_area_[k][1], amb);
    }
    G.count("body areas compared with the bounding box");
    bool clamp = s.body_area_[0][0] == 1 || s.body_area_[1][0] == 1 || s.body_area_[0][1] == NX(s) - 1 || s.body_area_[1][1] == NY(s) - 1;
    if (clamp) G.count("body areas reaching the edge of the interior");
}
// One terrain pass. pre = preselected cells (from the code under test or the model)
void terrain_pass(SO* s, const ss::Grid& g, const ss::SimParam& sp, float tol, Call real) {
    SO a = *s;
    double dh = dh_max_of(g, sp);
    double eps = 0.02 * g.cell_size_z_ + tol;
    int nx = NX(*s), ny = NY(*s);
    std::vector<char> must(static_cast<size_t>(nx * ny), 0), may(static_cast<size_t>(nx * ny), 0);
    static const int D[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
    Box lo{{{1 << 20, -1}, {1 << 20, -1}}}, hi = lo;     // boxes of the definite and of the possible cells
    auto add = [](Box& b, int i, int j) {
        b.a[0][0] = std::min(b.a[0][0], i); b.a[0][1] = std::max(b.a[0][1], i);
        b.a[1][0] = std::min(b.a[1][0], j); b.a[1][1] = std::max(b.a[1][1], j);
    };
    for (int i = a.impact_area_[0][0]; i < a.impact_area_[0][1]; i++)
        for (int j = a.impact_area_[1][0]; j < a.impact_area_[1][1]; j++)
            for (auto& d : D) {
                double x = static_cast<double>(a.terrain_[i][j]) - a.terrain_[i + d[0]][j + d[1]];
                if (x > dh + eps) { must[i * ny + j] = 1; }
                if (x > dh - eps) { may[i * ny + j] = 1; }
            }
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
        if (must[i * ny + j]) add(lo, i, j);
        if (may[i * ny + j]) add(hi, i, j);
    }
    real();
    G.count("terrain passes");
    long changed = 0;
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
        float x = a.terrain_[i][j], y = s->terrain_[i][j];
        bool ring = i == 0 || j == 0 || i == nx - 1 || j == ny - 1;
        bool near = may[i * ny + j];
        for (auto& d : D) {
            int p = i + d[0], q = j + d[1];
            if (p >= 0 && q >= 0 && p < nx && q < ny && may[p * ny + q]) near = true;
        }
        if (memcmp(&x, &y, 4)) {
            changed++;
            if (!near) G.viol("untouched terrain changed", "a pass changed the terrain in (%d,%d) from %.6g to %.6g although neither that "
                              "cell nor one next to it was unstable inside the active area %s", i, j, x, y, show(a.impact_area_).c_str());
            if (y < x - 0.3 * eps) {
                if (ring) G.viol("ring lowered", "a pass lowered the terrain of the outermost ring in (%d,%d) from %.6g to %.6g", i, j, x, y);
                else if (!may[i * ny + j]) G.viol("stable terrain lowered", "a pass lowered the stable terrain in (%d,%d) from %.6g to %.6g", i, j, x, y);
            }
            if (ring) G.count("ring cells that received terrain");
        }
        for (int l = 0; l < 4; l += 2) {
            if (!memcmp(&a.body_soil_[l][i][j], &s->body_soil_[l][i][j], 4) &&
                !memcmp(&a.body_soil_[l + 1][i][j], &s->body_soil_[l + 1][i][j], 4)) continue;
            if (!near) G.viol("untouched body soil changed", "a terrain pass changed the body soil in layer %d cell (%d,%d), away from "
                              "any unstable terrain", l, i, j);
        }
    }
    if (!same_bits(a.body_, s->body_)) G.viol("body changed", "a terrain pass changed the body");
    if (memcmp(a.body_area_, s->body_area_, sizeof a.body_area_) || memcmp(a.impact_area_, s->impact_area_, sizeof a.impact_area_))
        G.viol("area changed by pass", "a terrain pass changed the body area or the active area");
    if (changed) G.nontrivial(digest(*s));
    inside_grid(*s, "relax area", s->relax_area_, "after a terrain pass,");
    if (hi.a[0][1] < 0) {
        if (memcmp(a.relax_area_, s->relax_area_, sizeof a.relax_area_))
            G.viol("relax area moved", "nothing was unstable but the relaxation area became %s", show(s->relax_area_).c_str());
    } else if (lo.a[0][1] >= 0) {
        G.count("relaxation areas compared with the unstable cells");
        int half[2] = {g.half_length_x_, g.half_length_y_}, w = sp.cell_buffer_;
        for (int k = 0; k < 2; k++) {
            int l1 = std::max(lo.a[k][0] - w, 1), l2 = std::max(hi.a[k][0] - w, 1);
            int u1 = std::min(lo.a[k][1] + w, 2 * half[k]), u2 = std::min(hi.a[k][1] + w, 2 * half[k]);
            if (s->relax_area_[k][0] > l1 || s->relax_area_[k][0] < l2 || s->relax_area_[k][1] < u1 || s->relax_area_[k][1] > u2)
                G.viol("relax area", "unstable cells span [%d,%d] along %c, buffer %d, but the relaxation area is %s (grid %d x %d)",
                       lo.a[k][0], lo.a[k][1], "xy"[k], w, show(s->relax_area_).c_str(), nx, ny);
        }
    }
}
}  // namespace

static void p15_direct(Rng& r) {
    for (int k = 0; k < 12 && G.viol_case < 3; k++) {
        PatchOpts o;
        o.nmin = 5; o.nmax = 12;
        int kind = r.ri(0, 3);
        o.trange = r.ri(0, 6);
        if (kind == 0) o.p_none = 1; else if (kind == 1) { o.p_none = 0.9; o.p_both = 0.05; }
        auto p = make_patch(r, o);
        SO& s = p->so;
        int nx = NX(s), ny = NY(s);
        if (r.ch(0.5)) {          // mostly flat with a few heaps
            int base = r.ri(-3, 3);
            for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++)
                if (!has_body(s, 0, i, j) && !has_body(s, 2, i, j)) s.terrain_[i][j] = static_cast<float>(base * p->cz);
            int n = r.ri(0, 4);
            for (int q = 0; q < n; q++) {
                int i = r.ri(0, nx - 1), j = r.ri(0, ny - 1);
                if (!has_body(s, 0, i, j) && !has_body(s, 2, i, j)) s.terrain_[i][j] = static_cast<float>((base + r.ri(1, 14)) * p->cz);
            }
        }
        for (int d = 0; d < 2; d++) {
            int n = d == 0 ? nx : ny;
            int a = r.ch(0.4) ? 1 : r.ri(1, n - 2), b = r.ch(0.4) ? n - 1 : r.ri(a, n - 1);
            s.impact_area_[d][0] = a; s.impact_area_[d][1] = b;
            s.relax_area_[d][0] = r.ri(1, 3); s.relax_area_[d][1] = r.ri(n - 3, n - 1);
        }
        ss::SimParam sp(static_cast<float>(r.uf(std::atan(0.75 * p->cz / p->cxy), 1.2)), 10, r.ri(2, 9));
        ss::rng.seed(static_cast<unsigned>(r.next()));
        terrain_pass(&s, *p->grid, sp, p->tol, [&] { ss::RelaxTerrain(&s, *p->grid, p->body.get(), sp, p->tol); });
    }
}
// body areas from direct pose updates, also where the buffer reaches over the edge
static void p15_pose(Rng& r) {
    ScenOpts so;
    so.terrain = 0;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    for (int k = 0; k < 30 && G.viol_case < 3; k++) {
        VF p = {static_cast<float>(r.uf(-1, 1) * sc.gx), static_cast<float>(r.uf(-1, 1) * sc.gy), static_cast<float>(r.uf(-.2, .2) * sc.gz)};
        VF q = r.ch(0.3) ? axis_quat({0, 0, 1}, r.ri(0, 3) * 1.5707963267948966) : random_quat(r);
        if (!e.in_range(p, q)) continue;
        ss::SimParam sp(sc.repose, 3, r.ri(2, 12));
        if (e.blade) ss::CalcBodyPos(&e.so, p, q, e.grid, e.blade.get(), sp, sc.tol);
        else ss::CalcBodyPos(&e.so, p, q, e.grid, e.bucket.get(), sp, sc.tol);
        inside_grid(e.so, "body area", e.so.body_area_, "after a pose update,");
        body_area_ok(e.so, p, q, e.grid, *e.body(), sc.blade, sp.cell_buffer_, sc.tol, "pose update");
        G.nontrivial(mix(hash_bytes(e.so.body_area_, sizeof e.so.body_area_), hash_bytes(q.data(), 16)));
    }
}
static void p15_case() {
    Rng r = G.rng();
    if (G.case_idx % 3 == 1) return p15_direct(r);
    if (G.case_idx % 6 == 2) return p15_pose(r);
    Scen sc = make_scen(r);
    Episode e(sc, r);
    G.context = sc.text();
    std::vector<Box> rounds;
    long seen = 0;
    H.relax_terrain = [&](SO* s, ss::Grid& g, ss::Body*, ss::SimParam& p, float tol, Call real) {
        seen++;
        Box b;
        memcpy(b.a, s->impact_area_, sizeof b.a);
        rounds.push_back(b);
        inside_grid(*s, "active area", s->impact_area_, "at the start of a round,");
        for (int k = 0; k < 2; k++)
            if (b.a[k][0] != std::min(s->body_area_[k][0], s->relax_area_[k][0]) ||
                b.a[k][1] != std::max(s->body_area_[k][1], s->relax_area_[k][1]))
                G.viol("active area", "round %ld: active area %s does not span the body area %s and the relaxation area %s", seen,
                       show(s->impact_area_).c_str(), show(s->body_area_).c_str(), show(s->relax_area_).c_str());
        terrain_pass(s, g, p, tol, real);
    };
    H.relax_body_soil = [&](SO* s, ss::Grid& g, ss::Body*, ss::SimParam&, float, Call real) {
        SO a = *s;
        real();
        int nx = NX(a), ny = NY(a);
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
            bool in = i >= a.body_area_[0][0] - 1 && i <= a.body_area_[0][1] && j >= a.body_area_[1][0] - 1 && j <= a.body_area_[1][1];
            bool ch = memcmp(&a.terrain_[i][j], &s->terrain_[i][j], 4);
            if (ch && s->terrain_[i][j] < a.terrain_[i][j] - 0.01 * g.cell_size_z_)
                G.viol("body soil pass lowered terrain", "a body soil pass lowered the terrain in (%d,%d)", i, j);
            for (int l = 0; l < 4; l++) ch = ch || memcmp(&a.body_soil_[l][i][j], &s->body_soil_[l][i][j], 4);
            if (ch && !in) G.viol("body soil pass outside", "a body soil pass changed (%d,%d), outside the body area %s", i, j, show(a.body_area_).c_str());
        }
        G.count("body soil passes");
    };
    SO before(e.grid);
    e.play([&](Episode& ep) { before = ep.so; rounds.clear(); },
           [&](Episode& ep, bool ret) {
        SO& s = ep.so;
        if (!ret) return;
        G.count("acting steps");
        inside_grid(s, "body area", s.body_area_, "after a step,");
        inside_grid(s, "relax area", s.relax_area_, "after a step,");
        inside_grid(s, "active area", s.impact_area_, "after a step,");
        body_area_ok(s, ep.body()->pos_, ep.body()->ori_, ep.grid, *ep.body(), sc.blade, sc.buffer, sc.tol, "step");
        if (sc.iters > 0)
            for (int k = 0; k < 2; k++)
                if (s.impact_area_[k][0] > s.body_area_[k][0] || s.impact_area_[k][1] < s.body_area_[k][1])
                    G.viol("active area", "the reported active area %s does not contain the body area %s", show(s.impact_area_).c_str(),
                           show(s.body_area_).c_str());
        if (rounds.empty() && sc.iters > 0) return;    // rounds not observable
        // terrain is lowered only where a round or the body was at work
        int nx = NX(s), ny = NY(s);
        auto within = [&](const int (*b)[2], int i, int j) { return i >= b[0][0] && i < b[0][1] && j >= b[1][0] && j < b[1][1]; };
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
            if (!(s.terrain_[i][j] < before.terrain_[i][j] - 0.05f * sc.cz)) continue;
            bool ok = within(s.body_area_, i, j);
            for (auto& b : rounds) ok = ok || within(b.a, i, j);
            if (!ok) G.viol("terrain lowered outside", "step %d lowered the terrain in (%d,%d), outside every active area of its %zu rounds",
                            ep.step_no, i, j, rounds.size());
            if (i == 0 || j == 0 || i == nx - 1 || j == ny - 1)
                G.viol("ring lowered by step", "step %d lowered the terrain of the outermost ring in (%d,%d)", ep.step_no, i, j);
        }
    });
    G.sample("%s, %d steps, last active area %s", sc.text().c_str(), e.step_no, show(e.so.impact_area_).c_str());
}
static Reg r15({"P15", "case = one simulated history (1/2), 12 terrain passes on synthetic states with arbitrary active areas (1/3) or 30 "
    "pose updates with buffers up to 12 (1/6); every cell is compared around every pass and step; non-trivial = a pass that changed "
    "the terrain or a body area computed, counted by digest", p15_case, 12000, 60000});
