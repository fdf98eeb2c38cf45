// P23 independence of the units of length, P24 independence of the place in the grid, P25 independence of the storage slots of the
// layers: two executions of the real code on related inputs are compared step by step.
#include <algorithm>
#include <cmath>
#include "monitors.hpp"
using namespace sm;

namespace {
// How a state is expected to map onto its twin: lengths times f, indices plus (di, dj), heights plus dz.
struct Map { double f = 1; int di = 0, dj = 0; double dz = 0; };

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char* f, ...) {
    char b[600];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}
// First difference between the image of `a` and `b`; heights are compared within e, points within pe (units of b).
std::string differ(const SO& a, const SO& b, const Map& m, double e, double pe, bool areas) {
    if (a.equilibrium_ != b.equilibrium_) return fmt("equilibrium is %d and %d", a.equilibrium_, b.equilibrium_);
    auto H = [&](float h) { return m.f * h + m.dz; };
    for (int i = 0; i < NX(a); i++)
        for (int j = 0; j < NY(a); j++) {
            int u = i + m.di, v = j + m.dj;
            if (!(std::abs(H(a.terrain_[i][j]) - b.terrain_[u][v]) <= e))
                return fmt("terrain of cell (%d,%d) is %.8g where %.8g is expected", u, v, b.terrain_[u][v], H(a.terrain_[i][j]));
            for (int l = 0; l < 4; l += 2) {
                if (has_body(a, l, i, j) != has_body(b, l, u, v)) return fmt("body layer %d of cell (%d,%d) is %s", l, u, v, has_body(b, l, u, v) ? "added" : "missing");
                if (has_soil(a, l, i, j) != has_soil(b, l, u, v)) return fmt("soil on layer %d of cell (%d,%d) is %s", l, u, v, has_soil(b, l, u, v) ? "added" : "missing");
                for (int k = l; k < l + 2; k++) {
                    if (has_body(a, l, i, j) && !(std::abs(H(a.body_[k][i][j]) - b.body_[k][u][v]) <= e))
                        return fmt("body height %d of cell (%d,%d) is %.8g where %.8g is expected", k, u, v, b.body_[k][u][v], H(a.body_[k][i][j]));
                    if (has_soil(a, l, i, j) && !(std::abs(H(a.body_soil_[k][i][j]) - b.body_soil_[k][u][v]) <= e))
                        return fmt("soil height %d of cell (%d,%d) is %.8g where %.8g is expected", k, u, v, b.body_soil_[k][u][v], H(a.body_soil_[k][i][j]));
                }
            }
        }
    if (a.body_soil_pos_.size() != b.body_soil_pos_.size()) return fmt("%zu parcels where %zu are expected", b.body_soil_pos_.size(), a.body_soil_pos_.size());
    for (size_t k = 0; k < a.body_soil_pos_.size(); k++) {
        const Rec &x = a.body_soil_pos_[k], &y = b.body_soil_pos_[k];
        if (x.ind != y.ind || x.ii + m.di != y.ii || x.jj + m.dj != y.jj) return fmt("parcel %zu lies in layer %d of cell (%d,%d) where (%d; %d,%d) is expected", k, y.ind, y.ii, y.jj, x.ind, x.ii + m.di, x.jj + m.dj);
        if (!(std::abs(m.f * x.h_soil - y.h_soil) <= e)) return fmt("parcel %zu holds %.8g where %.8g is expected", k, y.h_soil, m.f * x.h_soil);
        if (!(std::abs(m.f * x.x_b - y.x_b) <= pe && std::abs(m.f * x.y_b - y.y_b) <= pe && std::abs(m.f * x.z_b - y.z_b) <= pe))
            return fmt("parcel %zu has the point (%.8g,%.8g,%.8g) where (%.8g,%.8g,%.8g) is expected", k, y.x_b, y.y_b, y.z_b, m.f * x.x_b, m.f * x.y_b, m.f * x.z_b);
    }
    if (areas)
        for (int c = 0; c < 2; c++)
            for (int k = 0; k < 2; k++) {
                int o = c ? m.dj : m.di;
                if (a.body_area_[c][k] + o != b.body_area_[c][k]) return fmt("body area [%d][%d] is %d where %d is expected", c, k, b.body_area_[c][k], a.body_area_[c][k] + o);
                if (a.relax_area_[c][k] + o != b.relax_area_[c][k]) return fmt("relax area [%d][%d] is %d where %d is expected", c, k, b.relax_area_[c][k], a.relax_area_[c][k] + o);
                if (a.impact_area_[c][k] + o != b.impact_area_[c][k]) return fmt("impact area [%d][%d] is %d where %d is expected", c, k, b.impact_area_[c][k], a.impact_area_[c][k] + o);
            }
    return "";
}
VF times(VF v, float f) { for (float& x : v) x *= f; return v; }
void scale_state(const SO& a, SO& b, float f) {
    b = a;
    for (auto& r : b.terrain_) for (float& x : r) x *= f;
    for (auto* g : {&b.body_, &b.body_soil_}) for (auto& l : *g) for (auto& r : l) for (float& x : r) x *= f;
    for (auto& q : b.body_soil_pos_) { q.x_b *= f; q.y_b *= f; q.z_b *= f; q.h_soil *= f; }
}

bool body_differs(const SO& a, const SO& b, double f, double e) {
    for (int k = 0; k < 4; k++)
        for (int i = 0; i < NX(a); i++)
            for (int j = 0; j < NY(a); j++)
                if ((a.body_[k][i][j] != 0) != (b.body_[k][i][j] != 0) || !(std::abs(f * a.body_[k][i][j] - b.body_[k][i][j]) <= e)) return true;
    return false;
}

// ---------------------------------------------------------------- P23
float pick_factor(Rng& r) {
    int k = r.ch(0.5) ? r.ri(1, 4) : r.ri(5, 10);
    return std::ldexp(1.0f, r.ch(0.6) ? -k : k);
}
// terrain generation and the constructors in other units
void p23_noise(Rng& r) {
    for (int k = 0; k < 6; k++) {
        float f = pick_factor(r);
        float cxy = static_cast<float>(r.uf(0.02, 2)), cz = static_cast<float>(cxy * r.uf(0.05, 1));
        float gx = static_cast<float>(cxy * r.uf(1, 40)), gy = static_cast<float>(cxy * r.uf(1, 40)), gz = static_cast<float>(cz * r.uf(1, 60));
        float amp = static_cast<float>(cz * r.uf(0, 60));
        ss::Grid a(gx, gy, gz, cxy, cz), b(gx * f, gy * f, gz * f, cxy * f, cz * f);
        if (a.half_length_x_ != b.half_length_x_ || a.half_length_y_ != b.half_length_y_ || a.half_length_z_ != b.half_length_z_) {
            G.viol("grid", "a grid of %d x %d x %d cells has %d x %d x %d cells in units of %g", a.half_length_x_, a.half_length_y_, a.half_length_z_,
                   b.half_length_x_, b.half_length_y_, b.half_length_z_, 1 / f);
            return;
        }
        double ref[] = {a.cell_size_xy_, a.cell_size_z_}, got[] = {b.cell_size_xy_, b.cell_size_z_};
        for (int c = 0; c < 2; c++) if (!(std::abs(ref[c] * f - got[c]) <= 1e-6 * got[c])) G.viol("grid", "the cell size is %.8g, not %.8g", got[c], ref[c] * f);
        if (!(std::abs(static_cast<double>(a.cell_area_) * f * f - b.cell_area_) <= 1e-6 * b.cell_area_)) G.viol("grid", "the area of a cell is %.8g, not %.8g", b.cell_area_, a.cell_area_ * f * f);
        if (!(std::abs(static_cast<double>(a.cell_volume_) * f * f * f - b.cell_volume_) <= 1e-6 * b.cell_volume_)) G.viol("grid", "the volume of a cell is %.8g, not %.8g", b.cell_volume_, a.cell_volume_ * f * f * f);
        auto tables = [](const ss::Grid& g) {
            std::vector<std::vector<double>> v(3);
            v[0].assign(g.vect_x_.begin(), g.vect_x_.end()); v[1].assign(g.vect_y_.begin(), g.vect_y_.end()); v[2].assign(g.vect_z_.begin(), g.vect_z_.end());
            return v;
        };
        auto va = tables(a), vb = tables(b);
        for (int c = 0; c < 3; c++)
            for (size_t i = 0; i < std::min(va[c].size(), vb[c].size()); i++)
                if (!(std::abs(va[c][i] * static_cast<double>(f) - vb[c][i]) <= 1e-3 * (c < 2 ? cxy : cz) * f)) {
                    G.viol("grid", "position %zu of table %d is %.8g, not %.8g", i, c, vb[c][i], va[c][i] * static_cast<double>(f));
                    return;
                }
        SO s(a), t(b);
        ss::SoilDynamics sim;
        unsigned seed = static_cast<unsigned>(r.next());
        ss::rng.seed(seed);
        sim.Init(&s, a, amp);
        auto ra = ss::rng;
        ss::rng.seed(seed);
        sim.Init(&t, b, amp * f);
        if (!(ra == ss::rng)) G.viol("random numbers", "terrain generation consumes other random numbers in other units");
        Map m; m.f = f;
        std::string d = differ(s, t, m, 1e-3 * cz * f, 1e-3 * cxy * f, true);
        if (!d.empty()) G.viol("noise", "terrain in units of %g: %s", 1 / f, d.c_str());
        G.count("terrains generated in other units");
        G.nontrivial(mix(digest(s), static_cast<uint64_t>(std::ilogb(f) + 100)));
    }
}
void p23_case() {
    Rng r = G.rng();
    if (G.case_idx % 12 == 5) return p23_noise(r);
    ScenOpts o;
    o.steps_min = 8; o.steps_max = 25; o.nmin = 9; o.nmax = 16; o.seed_soil = 0.6;
    Scen sc = make_scen(r, o);
    float f = pick_factor(r);
    // the tolerance also is the share by which the corners are drawn inwards, so it has to stay a small number
    while (sc.tol * f > 4e-4f && f > 1.0f / 1024) f *= 0.25f;
    if (f == 1) f = 0.5f;
    // quaternions times a power of two, possibly negated: the same orientation
    float qf = r.ch(0.5) ? 1 : std::ldexp(r.ch(0.5) ? 1.0f : -1.0f, r.ri(-3, 3));
    G.context = sc.text() + fmt(" unit 1/%g quaternion x %g", f, qf);
    Episode e(sc, r);
    ss::Grid g2(sc.gx * f, sc.gy * f, sc.gz * f, sc.cxy * f, sc.cz * f);
    std::unique_ptr<ss::Blade> blade;
    std::unique_ptr<ss::Bucket> bucket;
    if (e.blade) blade = std::make_unique<ss::Blade>(times(sc.o, f), times(sc.j, f), times(sc.b, f), times(sc.t, f), sc.width * f);
    else bucket = std::make_unique<ss::Bucket>(times(sc.o, f), times(sc.j, f), times(sc.b, f), times(sc.t, f), sc.width * f);
    ss::Body* body2 = blade ? static_cast<ss::Body*>(blade.get()) : bucket.get();
    ss::SoilDynamics sim2;
    SO so2(g2);
    Map m; m.f = f;
    float tol2 = sc.tol * f;
    double et = 1e-3 * sc.cz * f;
    auto pe = [&] { return 1e-3 * sc.cxy * f; };
    std::mt19937 before;
    uint64_t last = 0;
    bool resync = false;
    WarnLog w0;
    int step = 0;
    e.play([&](Episode& x) {
        // the start, soil put on the body by the workload, or a footprint resolved differently in the step before
        if (digest(x.so) != last || resync) scale_state(x.so, so2, f);
        resync = false;
        before = ss::rng;
        w0 = W;
    }, [&](Episode& x, bool ret) {
        std::mt19937 after = ss::rng;
        WarnLog w1 = W;
        ss::rng = before;
        VF p2 = times(x.pos, f), q2 = times(x.used_ori, qf);
        bool ret2 = blade ? sim2.Step(&so2, p2, q2, g2, blade.get(), x.param, tol2) : sim2.Step(&so2, p2, q2, g2, bucket.get(), x.param, tol2);
        WarnLog w2 = W;
        G.count("steps in other units");
        if (ret2 == ret && body_differs(x.so, so2, f, et)) { resync = true; G.count("footprints with a corner next to a cell boundary: not compared"); }
        else if (ret2 != ret) G.viol("acts", "step %d returns %d, and %d in other units", step, ret, ret2);
        else if (std::string d = differ(x.so, so2, m, et, pe(), true); !d.empty()) G.viol("outputs", "after step %d: %s", step, d.c_str());
        else if (!(ss::rng == after)) G.viol("random numbers", "step %d consumes other random numbers in other units", step);
        else
            for (int k = 0; k < W_N; k++)
                if (w1.n[k] - w0.n[k] != w2.n[k] - w1.n[k]) G.viol("warnings", "step %d logs %ld warnings of kind %d, and %ld in other units", step, w1.n[k] - w0.n[k], k, w2.n[k] - w1.n[k]);
        for (int c = 0; c < 3; c++) if (!(std::abs(x.body()->pos_[c] * static_cast<double>(f) - body2->pos_[c]) <= pe())) G.viol("pose", "the remembered pose differs after step %d", step);
        if (step % 4 == 1 && !G.viol_case && !resync) {     // the built-in checks, on the state and on one with a defect
            int v = static_cast<int>(volume_of(x.so, sc.cz)) + r.ri(0, 1);
            SO a = x.so, b = so2;
            if (r.ch(0.5)) {
                int i = r.ri(0, NX(a) - 1), j = r.ri(0, NY(a) - 1), l = 2 * r.ri(0, 1), k = r.ri(0, 1);
                float d = sc.cz * static_cast<float>(r.ri(-2, 2));
                if (has_soil(a, l, i, j)) { a.body_soil_[l + k][i][j] += d; b.body_soil_[l + k][i][j] += d * f; }
                else { a.terrain_[i][j] += d * 8; b.terrain_[i][j] += d * 8 * f; }
            }
            if (ss::CheckVolume(&a, v, x.grid, sc.tol) != ss::CheckVolume(&b, v, g2, tol2)) G.viol("volume check", "the volume check judges differently in other units after step %d", step);
            if (ss::CheckSoil(&a, sc.tol) != ss::CheckSoil(&b, tol2)) G.viol("convention check", "the convention check judges differently in other units after step %d", step);
            G.count("verdicts in other units", 2);
        }
        if (ret) { G.count("acting steps in other units"); G.nontrivial(mix(digest(x.so), static_cast<uint64_t>(std::ilogb(f) + 100))); }
        if (step == 3) G.sample("lengths times %g, quaternions times %g: step %d, %zu parcels, %ld cells", f, qf, step, so2.body_soil_pos_.size(), volume_of(so2, sc.cz * static_cast<double>(f)));
        last = digest(x.so);
        ss::rng = after;
        step++;
    });
}
static Reg r23({"P23", "case = one history of 8-25 steps played in two units of length at once, with the built-in checks in between (11/12), or six "
    "grids and generated terrains in two units (1/12); an entry is the digest of a state reached after an acting step together with the factor",
    p23_case, 2400, 40000});

// ---------------------------------------------------------------- P24
void set_area(int a[2][2], int i0, int i1, int j0, int j1) { a[0][0] = i0; a[0][1] = i1; a[1][0] = j0; a[1][1] = j1; }
bool inside(const int a[2][2], int nx, int ny) { return a[0][0] > 1 && a[1][0] > 1 && a[0][1] < nx - 1 && a[1][1] < ny - 1; }

void p24_case() {
    Rng r = G.rng();
    PatchOpts o;
    o.dyadic = true; o.border_free = true;
    o.nmin = 8; o.nmax = 14;
    o.p_none = r.uf(0.1, 0.95); o.p_both = r.uf(0, 1 - o.p_none); o.p_soil = r.uf(0, 1);
    o.trange = r.ri(1, 9);
    o.overlap = r.ch(0.6); o.p_touch = r.uf(0, 1);
    auto p = make_patch(r, o);
    SO& s = p->so;
    int nx = NX(s), ny = NY(s);
    double cz = p->cz, cxy = p->cxy;
    float tol = static_cast<float>(std::ldexp(cz, -9));
    int buffer = r.ri(2, 3);
    ss::SimParam sp(static_cast<float>(std::min(1.5, std::atan(cz / cxy * (r.ri(1, 3) + r.uf(-0.3, 0.3))))), 5, buffer);
    // piles and holes on top of the noise
    for (int k = r.ri(0, 4); k > 0; k--) s.terrain_[r.ri(5, nx - 6)][r.ri(5, ny - 6)] += static_cast<float>(cz * r.ri(-15, 25));
    int i0 = r.ri(5, nx / 2), i1 = r.ri(nx / 2 + 1, nx - 5), j0 = r.ri(5, ny / 2), j1 = r.ri(ny / 2 + 1, ny - 5);
    set_area(s.body_area_, i0, i1, j0, j1);
    set_area(s.relax_area_, i0, i1, j0, j1);
    set_area(s.impact_area_, i0, i1, j0, j1);

    // the twin: a larger grid, the same cells somewhere in it, other terrain around them
    int hx = NX(s) / 2, hy = NY(s) / 2;
    int kind = r.ri(0, 9);
    int hx2 = hx + (kind < 5 ? r.ri(0, 20) : kind < 7 ? r.ri(100, 1500) : 1), hy2 = hy + (kind < 5 ? r.ri(0, 20) : kind >= 7 && kind < 9 ? r.ri(100, 1500) : 1);
    if (kind == 9) { hx2 = hx + r.ri(30, 120); hy2 = hy + r.ri(30, 120); }
    int di = r.ri(0, 2 * (hx2 - hx)), dj = r.ri(0, 2 * (hy2 - hy));
    int dk = r.ch(0.3) ? 0 : r.ch(0.5) ? r.ri(-40, 40) : r.ri(-3500, 3500);
    float f = static_cast<float>(cz);
    Map m; m.di = di; m.dj = dj; m.dz = dk * cz;
    ss::Grid g2(static_cast<float>(hx2 * cxy), static_cast<float>(hy2 * cxy), static_cast<float>((std::abs(dk) + 100) * cz), p->grid->cell_size_xy_, p->grid->cell_size_z_);
    SO t(g2);
    if (NX(t) < nx + di || NY(t) < ny + dj) return;
    float around = f * static_cast<float>(dk);
    int wild = r.ri(0, 2);
    for (auto& row : t.terrain_) for (float& x : row) x = around + (wild == 0 ? 0 : f * static_cast<float>(wild == 1 ? r.ri(-2, 2) : r.ri(-30, 30)));
    float dz = f * static_cast<float>(dk);
    bool zero = false;
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            t.terrain_[i + di][j + dj] = s.terrain_[i][j] + dz;
            for (int l = 0; l < 4; l += 2)
                for (int k = l; k < l + 2; k++) {
                    if (has_body(s, l, i, j)) t.body_[k][i + di][j + dj] = s.body_[k][i][j] + dz;
                    if (has_soil(s, l, i, j)) t.body_soil_[k][i + di][j + dj] = s.body_soil_[k][i][j] + dz;
                }
            for (int l = 0; l < 4; l += 2) zero |= has_soil(s, l, i, j) != has_soil(t, l, i + di, j + dj) || has_body(s, l, i, j) != has_body(t, l, i + di, j + dj);
        }
    if (zero) return;
    t.body_soil_pos_ = s.body_soil_pos_;
    for (auto& q : t.body_soil_pos_) { q.ii += di; q.jj += dj; }
    set_area(t.body_area_, i0 + di, i1 + di, j0 + dj, j1 + dj);
    set_area(t.relax_area_, i0 + di, i1 + di, j0 + dj, j1 + dj);
    set_area(t.impact_area_, i0 + di, i1 + di, j0 + dj, j1 + dj);
    ss::Bucket b2 = *p->body;
    // the centre of cell (i, j) lies at (i - half length) cells
    double sx = (di - (hx2 - hx)) * cxy, sy = (dj - (hy2 - hy)) * cxy;
    b2.pos_[0] += static_cast<float>(sx); b2.pos_[1] += static_cast<float>(sy); b2.pos_[2] += dz;
    double reach = cxy * (hx2 + hy2) + std::abs(m.dz) + 30 * cz + norm(v3(p->body->pos_));
    double pe = 1e-3 * cxy + 3e-6 * reach;
    G.context = fmt("%d x %d cells of %g and %g at (%d,%d) of %d x %d and %d cells higher, repose %.4g, area %d-%d x %d-%d", nx, ny, cxy, cz, di, dj, NX(t), NY(t), dk, sp.repose_angle_, i0, i1, j0, j1);
    std::mt19937 ra(static_cast<unsigned>(r.next())), rb = ra;
    uint64_t start = digest(s);
    SO outside = t;
    auto both = [&](const char* what, bool areas, auto op) {
        uint64_t d0 = digest(s);
        WarnLog w0 = W;
        ss::rng = ra;
        op(s, *p->grid, static_cast<ss::Body*>(p->body.get()));
        ra = ss::rng;
        WarnLog w1 = W;
        ss::rng = rb;
        op(t, g2, static_cast<ss::Body*>(&b2));
        rb = ss::rng;
        if (G.viol_case) return;
        std::string d = differ(s, t, m, 1e-3 * cz, pe, areas && inside(s.relax_area_, nx, ny) && inside(t.relax_area_, NX(t), NY(t)));
        if (!d.empty()) G.viol("outcome", "%s: %s", what, d.c_str());
        else if (!(ra == rb)) G.viol("random numbers", "%s consumes other random numbers elsewhere", what);
        else
            for (int k = 0; k < W_N; k++) if (w1.n[k] - w0.n[k] != W.n[k] - w1.n[k]) G.viol("warnings", "%s logs %ld warnings of kind %d, and %ld elsewhere", what, w1.n[k] - w0.n[k], k, W.n[k] - w1.n[k]);
        G.count(std::string(what) + " compared");
        if (digest(s) != d0) { G.count(std::string(what) + " that moved soil, compared"); G.nontrivial(mix(mix(d0, static_cast<uint64_t>(di * 4099 + dj)), static_cast<uint64_t>(dk + 9999))); }
    };
    auto on = [&](const char* w) { return G.viol_case == 0 && w; };
    if (o.overlap || r.ch(0.3)) {
        both("squeezes", true, [&](SO& x, const ss::Grid& g, ss::Body* b) { ss::MoveIntersectingBodySoil(&x, g, b, tol); });
        if (on("cut")) both("cuts", true, [&](SO& x, const ss::Grid&, ss::Body*) { ss::MoveIntersectingBody(&x, tol); });
    }
    int rounds = r.ri(1, 8);
    for (int k = 0; k < rounds && G.viol_case == 0; k++) {
        both("terrain passes", true, [&](SO& x, const ss::Grid& g, ss::Body* b) { ss::RelaxTerrain(&x, g, b, sp, tol); });
        if (!on("body")) break;
        both("body soil passes", true, [&](SO& x, const ss::Grid& g, ss::Body* b) {
            for (int a = static_cast<int>(x.body_soil_pos_.size()) - 1; a > 0; a--) std::swap(x.body_soil_pos_[a], x.body_soil_pos_[ss::rng() % static_cast<unsigned>(a + 1)]);
            ss::RelaxBodySoil(&x, g, b, sp, tol);
        });
        if (s.equilibrium_) break;
        // the active area of the next round
        if (!inside(s.relax_area_, nx, ny) || s.relax_area_[0][0] < 3 || s.relax_area_[1][0] < 3 || s.relax_area_[0][1] > nx - 3 || s.relax_area_[1][1] > ny - 3) { G.count("situations that reached their border"); break; }
        for (int c = 0; c < 2; c++) {
            s.impact_area_[c][0] = std::min(s.body_area_[c][0], s.relax_area_[c][0]); s.impact_area_[c][1] = std::max(s.body_area_[c][1], s.relax_area_[c][1]);
            t.impact_area_[c][0] = std::min(t.body_area_[c][0], t.relax_area_[c][0]); t.impact_area_[c][1] = std::max(t.body_area_[c][1], t.relax_area_[c][1]);
        }
    }
    // nothing outside the copied cells has changed
    long touched = 0;
    for (int i = 0; i < NX(t); i++)
        for (int j = 0; j < NY(t); j++)
            if (i < di || j < dj || i >= di + nx || j >= dj + ny) touched += t.terrain_[i][j] != outside.terrain_[i][j] || has_soil(t, 0, i, j) || has_soil(t, 2, i, j);
    if (touched && !G.viol_case) G.viol("outside", "%ld cells away from the situation changed", touched);
    G.count("situations played at two places");
    G.sample("%s: %d rounds, %zu parcels", G.context.c_str(), rounds, s.body_soil_pos_.size());
    (void)start;
}
static Reg r24({"P24", "case = one synthetic situation squeezed, cut and relaxed for up to 8 rounds at two places at once: in its own grid and in a larger "
    "one (up to 3000 cells long) at another height (up to 3500 cells) with other terrain around it; an entry is the digest of a state that an "
    "operation changed together with the displacement", p24_case, 8000, 120000});

// ---------------------------------------------------------------- P25
using Mask = std::vector<std::vector<bool>>;
// exchange the two layers, with the soil on them, in the cells of the mask
void exchange(SO& s, const Mask& m) {
    for (int i = 0; i < NX(s); i++)
        for (int j = 0; j < NY(s); j++)
            if (m[i][j])
                for (int k = 0; k < 2; k++) { std::swap(s.body_[k][i][j], s.body_[k + 2][i][j]); std::swap(s.body_soil_[k][i][j], s.body_soil_[k + 2][i][j]); }
    for (auto& q : s.body_soil_pos_) if (m[q.ii][q.jj]) q.ind = 2 - q.ind;
}
int exchanged(int status, bool swapped) {
    if (!swapped) return status;
    static const int tens[] = {0, 2, 1, 3, 4}, units[] = {0, 3, 4, 1, 2};
    int t = status / 10, u = status % 10;
    if (t > 4 || u > 4) return -1;
    return 10 * tens[t] + units[u];
}
// transport of the soil on the body into a footprint whose layers are stored the other way round
void p25_transport(Rng& r) {
    for (int n = 0; n < 4 && !G.viol_case; n++) {
        Transport tr = make_transport(r, r.ch(0.2));
        Patch& p = *tr.p;
        SO& s = p.so;
        double cz = p.cz, cxy = p.cxy;
        int nx = NX(s), ny = NY(s);
        ss::Bucket b2 = *p.body;
        Mask m(nx, std::vector<bool>(ny));
        double share = r.ch(0.3) ? 1 : r.uf(0.1, 0.9);
        for (auto& row : m) for (size_t j = 0; j < row.size(); j++) row[j] = r.ch(share);
        // layers that a parcel may take for equally good are explored in the order of the slots
        bool close = false;
        for (auto& q : s.body_soil_pos_) {
            VF at = ss::CalcRotationQuaternion(tr.ori, {q.x_b, q.y_b, q.z_b});
            double z = at[2] + static_cast<double>(tr.pos[2]);
            int ci = static_cast<int>(std::lround((at[0] + static_cast<double>(tr.pos[0])) / cxy)) + nx / 2, cj = static_cast<int>(std::lround((at[1] + static_cast<double>(tr.pos[1])) / cxy)) + ny / 2;
            for (int i = ci - 2; i <= ci + 2; i++)
                for (int j = cj - 2; j <= cj + 2; j++)
                    if (i >= 0 && j >= 0 && i < nx && j < ny && has_body(s, 0, i, j) && has_body(s, 2, i, j)) {
                        double d1 = std::abs(z - s.body_[1][i][j]), d3 = std::abs(z - s.body_[3][i][j]);
                        close |= std::abs(d1 - d3) < 1e-3 * cz || std::max(d1, d3) < 1.01 * cz + 2 * p.tol;
                    }
        }
        if (close) { G.count("transports with equally good layers: not compared"); continue; }
        SO t = s;
        exchange(t, m);
        uint64_t d0 = digest(s);
        WarnLog w0 = W;
        ss::UpdateBodySoil(&s, tr.pos, tr.ori, *p.grid, p.body.get(), p.tol);
        WarnLog w1 = W;
        ss::UpdateBodySoil(&t, tr.pos, tr.ori, *p.grid, &b2, p.tol);
        SO back = t;
        exchange(back, m);
        std::string d = differ(s, back, Map(), 1e-3 * cz, 1e-3 * cxy, false);
        if (!d.empty()) G.viol("outcome", "transport: with exchanged slots %s", d.c_str());
        for (int k = 0; k < W_N; k++) if (w1.n[k] - w0.n[k] != W.n[k] - w1.n[k]) G.viol("warnings", "transport logs %ld warnings of kind %d, and %ld with exchanged slots", w1.n[k] - w0.n[k], k, W.n[k] - w1.n[k]);
        G.count("transports compared");
        if (digest(s) != d0) G.nontrivial(mix(d0, digest(t)));
    }
}
void p25_case() {
    Rng r = G.rng();
    if (G.case_idx % 4 == 1) return p25_transport(r);
    PatchOpts o;
    o.dyadic = true; o.border_free = true;
    o.nmin = 6; o.nmax = 12;
    o.p_none = r.uf(0, 0.7); o.p_both = r.uf(0, 1 - o.p_none); o.p_soil = r.uf(0, 1);
    o.trange = r.ri(1, 9);
    o.overlap = r.ch(0.6); o.p_touch = r.uf(0, 1);
    if (r.ch(0.4)) o.p_upper_pen = r.uf(0, 0.6);
    auto p = make_patch(r, o);
    SO& s = p->so;
    int nx = NX(s), ny = NY(s);
    double cz = p->cz, cxy = p->cxy;
    float tol = static_cast<float>(std::ldexp(cz, -9));
    ss::SimParam sp(static_cast<float>(std::min(1.5, std::atan(cz / cxy * (r.ri(1, 3) + r.uf(-0.3, 0.3))))), 5, r.ri(2, 3));
    for (int k = r.ri(0, 4); k > 0; k--) {
        int i = r.ri(3, nx - 4), j = r.ri(3, ny - 4);
        if (!has_body(s, 0, i, j) && !has_body(s, 2, i, j)) s.terrain_[i][j] += static_cast<float>(cz * r.ri(-15, 25));
    }
    int i0 = r.ri(3, nx / 2), i1 = r.ri(nx / 2 + 1, nx - 3), j0 = r.ri(3, ny / 2), j1 = r.ri(ny / 2 + 1, ny - 3);
    set_area(s.body_area_, i0, i1, j0, j1);
    set_area(s.relax_area_, i0, i1, j0, j1);
    set_area(s.impact_area_, i0, i1, j0, j1);
    Mask m(nx, std::vector<bool>(ny));
    double share = r.ch(0.3) ? 1 : r.uf(0.1, 0.9);
    for (auto& row : m) for (size_t j = 0; j < row.size(); j++) row[j] = r.ch(share);
    SO t = s;
    exchange(t, m);
    G.context = fmt("%d x %d cells of %g and %g, repose %.4g, %.0f%% of the cells exchanged", nx, ny, cxy, cz, sp.repose_angle_, 100 * share);
    std::mt19937 ra(static_cast<unsigned>(r.next())), rb = ra;
    Map same;
    auto compare = [&](const char* what) {
        SO back = t;
        exchange(back, m);
        std::string d = differ(s, back, same, 1e-3 * cz, 1e-3 * cxy, true);
        if (!d.empty()) G.viol("outcome", "%s: with exchanged slots %s", what, d.c_str());
        else if (!(ra == rb)) G.viol("random numbers", "%s consumes other random numbers with exchanged slots", what);
    };
    auto both = [&](const char* what, auto op) {
        if (G.viol_case) return;
        uint64_t d0 = digest(s);
        WarnLog w0 = W;
        ss::rng = ra; op(s); ra = ss::rng;
        WarnLog w1 = W;
        ss::rng = rb; op(t); rb = ss::rng;
        if (G.viol_case) return;
        compare(what);
        for (int k = 0; k < W_N; k++) if (w1.n[k] - w0.n[k] != W.n[k] - w1.n[k]) G.viol("warnings", "%s logs %ld warnings of kind %d, and %ld with exchanged slots", what, w1.n[k] - w0.n[k], k, W.n[k] - w1.n[k]);
        G.count(std::string(what) + " compared");
        if (digest(s) != d0) { G.count(std::string(what) + " that moved soil, compared"); G.nontrivial(mix(d0, digest(t))); }
    };
    auto decisions = [&] {
        for (int k = 0; k < 60 && !G.viol_case; k++) {
            int i = r.ri(2, nx - 3), j = r.ri(2, ny - 3);
            float h = s.terrain_[i][j] + static_cast<float>(cz * (r.ri(-2, 12) + r.uf(0.1, 0.9)));
            int a = ss::CheckUnstableTerrainCell(&s, i, j, h, tol), b = ss::CheckUnstableTerrainCell(&t, i, j, h, tol);
            G.count("terrain decisions compared");
            if (exchanged(a, m[i][j]) != b) { G.viol("terrain decision", "decision %d becomes %d with exchanged slots: %s", a, b, show(cell(s, i, j)).c_str()); break; }
        }
        for (int k = 0; k < 60 && !G.viol_case && !s.body_soil_pos_.empty(); k++) {
            auto& q = s.body_soil_pos_[static_cast<size_t>(r.ri(0, static_cast<int>(s.body_soil_pos_.size()) - 1))];
            if (q.ii < 2 || q.jj < 2 || q.ii > nx - 3 || q.jj > ny - 3) continue;
            int d = r.ri(0, 3), i = q.ii + (d == 0) - (d == 1), j = q.jj + (d == 2) - (d == 3);
            float h = s.body_soil_[q.ind + 1][q.ii][q.jj] - static_cast<float>(cz * (r.ri(0, 4) + r.uf(0.1, 0.9)));
            int ind2 = m[q.ii][q.jj] ? 2 - q.ind : q.ind;
            int a = ss::CheckUnstableBodyCell(&s, q.ii, q.jj, q.ind, i, j, h, tol), b = ss::CheckUnstableBodyCell(&t, q.ii, q.jj, ind2, i, j, h, tol);
            G.count("body soil decisions compared");
            if (exchanged(a, m[i][j]) != b) { G.viol("body soil decision", "decision %d becomes %d with exchanged slots: from layer %d of %s to %s", a, b, q.ind, show(cell(s, q.ii, q.jj)).c_str(), show(cell(s, i, j)).c_str()); break; }
        }
    };
    auto verdicts = [&] {
        if (G.viol_case) return;
        int v = static_cast<int>(volume_of(s, cz)) + r.ri(0, 1);
        SO a = s, b = t;
        G.count("verdicts compared", 2);
        if (ss::CheckVolume(&a, v, *p->grid, tol) != ss::CheckVolume(&b, v, *p->grid, tol)) G.viol("volume check", "the volume check judges differently with exchanged slots");
        if (ss::CheckSoil(&a, tol) != ss::CheckSoil(&b, tol)) G.viol("convention check", "the convention check judges differently with exchanged slots");
    };
    decisions();
    verdicts();
    if (o.overlap || r.ch(0.3)) {
        both("squeezes", [&](SO& x) { ss::MoveIntersectingBodySoil(&x, *p->grid, p->body.get(), tol); });
        bool twice = false;     // terrain that reaches both layers of a cell is cut in the order of the slots
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++)
            twice |= has_body(s, 0, i, j) && has_body(s, 2, i, j) && s.terrain_[i][j] > std::max(s.body_[0][i][j], s.body_[2][i][j]);
        if (twice) G.count("terrain through both layers of a cell: cut not compared");
        else both("cuts", [&](SO& x) { ss::MoveIntersectingBody(&x, tol); });
        if (twice) return;
        verdicts();
    }
    int rounds = r.ri(1, 8);
    for (int k = 0; k < rounds && !G.viol_case; k++) {
        both("terrain passes", [&](SO& x) { ss::RelaxTerrain(&x, *p->grid, p->body.get(), sp, tol); });
        both("body soil passes", [&](SO& x) {
            for (int a = static_cast<int>(x.body_soil_pos_.size()) - 1; a > 0; a--) std::swap(x.body_soil_pos_[a], x.body_soil_pos_[ss::rng() % static_cast<unsigned>(a + 1)]);
            ss::RelaxBodySoil(&x, *p->grid, p->body.get(), sp, tol);
        });
        if (G.viol_case) break;
        decisions();
        if (s.equilibrium_) break;
        if (s.relax_area_[0][0] < 3 || s.relax_area_[1][0] < 3 || s.relax_area_[0][1] > nx - 3 || s.relax_area_[1][1] > ny - 3) break;
        for (int c = 0; c < 2; c++)
            for (SO* x : {&s, &t}) {
                x->impact_area_[c][0] = std::min(x->body_area_[c][0], x->relax_area_[c][0]);
                x->impact_area_[c][1] = std::max(x->body_area_[c][1], x->relax_area_[c][1]);
            }
    }
    verdicts();
    G.count("situations played with exchanged slots");
    G.sample("%s: %d rounds, %zu parcels", G.context.c_str(), rounds, s.body_soil_pos_.size());
}
static Reg r25({"P25", "case = one synthetic situation squeezed, cut and relaxed for up to 8 rounds twice, the second time with the two layer slots exchanged "
    "in a random set of cells; stability decisions and verdicts in between are compared too; an entry is the digest of a state that an "
    "operation changed together with that of its twin; a quarter of the cases transports soil into exchanged footprints instead",
    p25_case, 40000, 400000});
}  // namespace
