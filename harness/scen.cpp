#include "scen.hpp"

namespace sm {

std::string Scen::text() const {
    char buf[700];
    snprintf(buf, sizeof buf,
             "%s grid(%.4g,%.4g,%.4g,%.4g,%.4g) o(%.4g,%.4g,%.4g) j(%.4g,%.4g,%.4g) b(%.4g,%.4g,%.4g) "
             "t(%.4g,%.4g,%.4g) w %.4g repose %.4g iters %d buffer %d tol %.1e terrain %d program %d steps %d quat %d",
             blade ? "blade" : "bucket", gx, gy, gz, cxy, cz, o[0], o[1], o[2], j[0], j[1], j[2], b[0], b[1], b[2],
             t[0], t[1], t[2], width, repose, iters, buffer, tol, terrain_kind, program, steps, quat_mode);
    return buf;
}

VF quat_mul(const VF& a, const VF& b) {
    auto d = [](float x) { return static_cast<double>(x); };
    double w = d(a[0]) * b[0] - d(a[1]) * b[1] - d(a[2]) * b[2] - d(a[3]) * b[3];
    double x = d(a[0]) * b[1] + d(a[1]) * b[0] + d(a[2]) * b[3] - d(a[3]) * b[2];
    double y = d(a[0]) * b[2] - d(a[1]) * b[3] + d(a[2]) * b[0] + d(a[3]) * b[1];
    double z = d(a[0]) * b[3] + d(a[1]) * b[2] - d(a[2]) * b[1] + d(a[3]) * b[0];
    return {static_cast<float>(w), static_cast<float>(x), static_cast<float>(y), static_cast<float>(z)};
}
VF axis_quat(V3 ax, double ang) {
    double n = norm(ax);
    if (n < 1e-12) return {1, 0, 0, 0};
    double s = -std::sin(ang / 2) / n;
    return {static_cast<float>(std::cos(ang / 2)), static_cast<float>(s * ax.x), static_cast<float>(s * ax.y),
            static_cast<float>(s * ax.z)};
}
VF random_quat(Rng& r) {
    double q[4], n = 0;
    do { n = 0; for (double& x : q) { x = r.gauss(); n += x * x; } } while (n < 1e-3);
    n = std::sqrt(n);
    return {static_cast<float>(q[0] / n), static_cast<float>(q[1] / n), static_cast<float>(q[2] / n),
            static_cast<float>(q[3] / n)};
}
static VF normalised(VF q) {
    double n = std::sqrt(static_cast<double>(q[0]) * q[0] + static_cast<double>(q[1]) * q[1] +
                         static_cast<double>(q[2]) * q[2] + static_cast<double>(q[3]) * q[3]);
    for (float& x : q) x = static_cast<float>(x / n);
    return q;
}

// Sometimes lengths are not given in metres but in centimetres, say; the tolerance goes with them.
float any_scale(Rng& r, float c) {
    if (!r.ch(0.12)) return c;
    static const float S[] = {0.1f, 0.02f, 0.01f};
    if (r.ch(0.33)) return c <= 0.25f ? c * S[r.ri(0, 2)] : c * 0.001f;
    static const float F[] = {20, 50, 100};
    return c <= 0.25f ? c * F[r.ri(0, 2)] : c * 10;
}

// A tolerance has to lie well below a cell and above the spacing of the heights.
float fit_tol(double cxy, double cz, float usual) {
    if (cxy > 1) return static_cast<float>(2.5e-5 * cxy);
    if (cz < 2.5e-3) return std::min(usual, static_cast<float>(4e-3 * cz));
    return usual;
}

Scen make_scen(Rng& r, const ScenOpts& o) {
    Scen s;
    bool def = r.ch(o.p_default_grid);
    static const float XY[] = {0.05f, 0.1f, 0.05f, 0.1f, 0.2f, 0.04f, 0.25f, 1.0f};
    static const float RATIO[] = {1.0f, 0.5f, 0.5f, 0.25f, 0.2f, 0.2f, 0.1f};
    s.cxy = any_scale(r, XY[r.ri(0, 7)]);
    s.cz = static_cast<float>(s.cxy * RATIO[r.ri(0, 6)]);
    int nx = r.ri(o.nmin, o.nmax), ny = r.ri(o.nmin, o.nmax);
    if (r.ch(0.2)) ny = nx;
    if (def) { s.cxy = 0.05f; s.cz = 0.01f; nx = ny = 80; }
    double fx = 0, fy = 0, fz = 0;
    if (o.misaligned && !def && r.ch(0.25)) { fx = r.uf(-0.45, 0.45); fy = r.uf(-0.45, 0.45); fz = r.uf(-0.45, 0.45); }
    s.gx = static_cast<float>((nx + fx) * s.cxy);
    s.gy = static_cast<float>((ny + fy) * s.cxy);
    int nm = std::min(nx, ny);
    double L = r.uf(3.5, std::max(4.5, std::min(10.0, nm * 0.55))) * s.cxy;
    if (def) L = r.uf(6, 16) * s.cxy;
    s.blade = o.blade >= 0 ? o.blade : r.ch(0.45);
    auto P = [&](double x, double y, double z) {
        return VF{static_cast<float>(x * L), static_cast<float>(y * L), static_cast<float>(z * L)};
    };
    if (r.ch(0.15)) {
        // generic three points
        V3 a, b, c;
        do {
            a = {r.uf(-.5, .5), r.uf(-.5, .5), r.uf(-.5, .5)};
            b = {r.uf(-.5, .5), r.uf(-.5, .5), r.uf(-.5, .5)};
            c = {r.uf(-.5, .5), r.uf(-.5, .5), r.uf(-.5, .5)};
        } while (norm(cross(b - a, c - a)) < 0.15);
        s.j = P(a.x, a.y, a.z); s.b = P(b.x, b.y, b.z); s.t = P(c.x, c.y, c.z);
        s.width = static_cast<float>(L * r.uf(0.3, 0.8));
    } else if (s.blade) {
        s.j = P(0, 0, 0);
        s.b = P(r.uf(-.35, .15), 0, r.uf(.3, .8));
        s.t = P(r.uf(.2, .6), 0, -r.uf(.05, .4));
        s.width = static_cast<float>(L * r.uf(0.6, 1.2));
    } else {
        s.j = P(0, 0, 0);
        s.b = P(r.uf(-.25, .2), 0, -r.uf(.35, .8));
        s.t = P(s.b[0] / L + r.uf(.5, 1.0), 0, s.b[2] / L + (r.ch(0.4) ? 0 : r.uf(-.2, .3)));
        s.width = static_cast<float>(L * r.uf(0.35, 0.9));
    }
    s.o = {0, 0, 0};
    if (r.ch(0.3)) {
        V3 off{r.uf(-1, 1) * L, r.uf(-1, 1) * L, r.uf(-1, 1) * L};
        VF f{static_cast<float>(off.x), static_cast<float>(off.y), static_cast<float>(off.z)};
        s.o = f;
        // part of the offset stays in the shape: the origin is then away from the points
        double keep = r.ch(0.5) ? 1.0 : r.uf(0.8, 1.2);
        for (int k = 0; k < 3; k++) {
            s.j[k] += static_cast<float>(f[k] * keep); s.b[k] += static_cast<float>(f[k] * keep);
            s.t[k] += static_cast<float>(f[k] * keep);
        }
    }
    double reach = 3.2 * L;
    int nz = static_cast<int>(std::ceil(reach / s.cz)) + 60 + static_cast<int>(r.ri(0, 30));
    s.gz = static_cast<float>((nz + fz) * s.cz);
    if (def) s.gz = 4.0f;
    s.repose = static_cast<float>(r.ch(0.07) ? 0.0 : r.ch(0.05) ? 1.5 : r.uf(std::max(0.05, o.repose_lo), std::min(1.3, o.repose_hi)));
    if (s.repose < o.repose_lo) s.repose = static_cast<float>(o.repose_lo);
    if (s.repose > o.repose_hi) s.repose = static_cast<float>(o.repose_hi);
    if (r.ch(0.25)) s.repose = 0.85f;
    if (!o.allow_zero_repose) {   // repose height of at least one cell
        double lim = std::atan(0.75 * s.cz / s.cxy);
        if (s.repose < lim) s.repose = static_cast<float>(r.uf(lim, 0.9));
        if (s.repose > o.repose_hi) s.repose = static_cast<float>(std::max(lim, o.repose_hi));
    }
    s.iters = o.iters >= 0 ? o.iters : (r.ch(0.05) ? 0 : r.ch(0.3) ? 10 : r.ch(0.2) ? r.ri(30, 120) : r.ri(1, 15));
    s.buffer = o.buffer >= 0 ? o.buffer : (r.ch(0.3) ? 4 : r.ri(2, 7));
    s.tol = r.ch(0.5) ? 1e-5f : r.ch(0.3) ? 2e-5f : std::max(1e-5f, 1e-3f * s.cz);
    s.tol = fit_tol(s.cxy, s.cz, s.tol);
    s.terrain_kind = o.terrain >= 0 ? o.terrain : r.ri(0, 8);
    s.program = o.program >= 0 ? o.program : r.ri(0, o.big_steps ? 8 : 3);
    s.steps = r.ri(o.steps_min, o.steps_max);
    s.rngseed = static_cast<unsigned>(r.next());
    s.quat_mode = r.ch(0.7) ? 0 : r.ri(1, 2);
    s.seed_soil = r.ch(o.seed_soil);
    s.lift = r.ch(0.6) ? r.uf(0, 4) : r.uf(-8, 2);
    return s;
}

Episode::Episode(const Scen& s, Rng rr, double margin_cells)
    : sc(s), grid(s.gx, s.gy, s.gz, s.cxy, s.cz), param(s.repose, s.iters, s.buffer), so(grid), r(rr) {
    if (s.blade) blade = std::make_unique<ss::Blade>(s.o, s.j, s.b, s.t, s.width);
    else bucket = std::make_unique<ss::Bucket>(s.o, s.j, s.b, s.t, s.width);
    margin = margin_cells;
    ss::rng.seed(s.rngseed);
    init_terrain();
    // initial pose
    V3 up{0, 0, 1};
    ori = axis_quat(up, r.uf(-3.2, 3.2));
    if (r.ch(0.35)) ori = axis_quat(up, r.ri(0, 3) * 1.5707963267948966);
    if (r.ch(0.6)) {
        V3 ax{r.uf(-1, 1), r.uf(-1, 1), 0};
        ori = normalised(quat_mul(ori, axis_quat(ax, r.uf(-0.6, 0.6))));
    }
    if (r.ch(0.1)) ori = random_quat(r);
    pos = {0, 0, 0};
    auto centre_it = [&]() {
        auto c = corner_arr(corners({0, 0, 0}, ori, *body()));
        V3 m{0, 0, 0};
        double zmin = 1e9;
        for (V3 v : c) { m = m + (1.0 / 6) * v; zmin = std::min(zmin, v.z); }
        int i0 = grid.half_length_x_, j0 = grid.half_length_y_;
        double ground = so.terrain_[i0][j0];
        // random start inside the grid
        for (int k = 0; k < 20; k++) {
            double f = k == 19 ? 0 : 0.9 - 0.04 * k;
            pos[0] = static_cast<float>(-m.x + r.uf(-f, f) * (grid.half_length_x_ - 4) * sc.cxy);
            pos[1] = static_cast<float>(-m.y + r.uf(-f, f) * (grid.half_length_y_ - 4) * sc.cxy);
            pos[2] = static_cast<float>(ground - zmin + sc.lift * sc.cz);
            if (in_range(pos, ori)) return true;
        }
        return false;
    };
    if (!centre_it()) { ori = {1, 0, 0, 0}; centre_it(); }
    if (r.ch(0.15)) {
        // exactly on a cell centre or border
        pos[0] = static_cast<float>(std::round(pos[0] / sc.cxy * 2) * 0.5 * sc.cxy);
        pos[1] = static_cast<float>(std::round(pos[1] / sc.cxy * 2) * 0.5 * sc.cxy);
        pos[2] = static_cast<float>(std::round(pos[2] / sc.cz) * sc.cz);
    }
}

void Episode::init_terrain() {
    int nx = NX(so), ny = NY(so);
    auto set = [&](int i, int j, int k) { so.terrain_[i][j] = sc.cz * static_cast<float>(k); };
    double ratio = sc.cxy / sc.cz;
    int k0 = 0;
    switch (sc.terrain_kind) {
        case 0: break;                                             // flat at zero
        case 1: k0 = r.ri(-15, 15);                                // flat with an offset
            for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) set(i, j, k0);
            break;
        case 2: case 8: {                                          // the simulator's own noise
            float amp = static_cast<float>(sc.cz * r.uf(2, 40));
            sim.Init(&so, grid, amp);
            break;
        }
        case 3: {                                                  // rough
            int a = r.ri(1, static_cast<int>(std::ceil(2 * ratio)) + 2);
            k0 = r.ri(-6, 6);
            for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) set(i, j, k0 + r.ri(0, a));
            break;
        }
        case 4: {                                                  // ramp
            double sx = r.uf(-1.2, 1.2) * ratio, sy = r.uf(-1.2, 1.2) * ratio;
            k0 = r.ri(-5, 5);
            for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++)
                set(i, j, k0 + std::max(-30, std::min(30, static_cast<int>(std::floor(
                    sx * (i - nx / 2) + sy * (j - ny / 2))))));
            break;
        }
        case 5: {                                                  // heaps
            k0 = r.ri(-8, 3);
            int n = r.ri(1, 6);
            for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) set(i, j, k0);
            for (int k = 0; k < n; k++) {
                int a = r.ri(0, nx - 1), b = r.ri(0, ny - 1), h = r.ri(1, 25);
                set(a, b, k0 + h);
                if (r.ch(0.5) && a + 1 < nx) set(a + 1, b, k0 + h);
            }
            break;
        }
        case 6: {                                                  // trench
            k0 = r.ri(-3, 6);
            int a = r.ri(1, nx - 4), w = r.ri(1, 4), d = r.ri(1, 18);
            for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++)
                set(i, j, k0 - ((i >= a && i < a + w) ? d : 0));
            break;
        }
        case 7: {                                                  // walls near the border
            for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
                int e = std::min(std::min(i, nx - 1 - i), std::min(j, ny - 1 - j));
                set(i, j, e == 1 && r.ch(0.3) ? r.ri(0, 12) : e == 0 ? r.ri(-4, 4) : 0);
            }
            break;
        }
    }
}

bool Episode::in_range(const VF& p, const VF& q) {
    auto c = corner_arr(corners(p, q, *body()));
    double ex = sc.blade ? 1.5 : 0;
    for (V3 v : c) {
        double x = v.x / sc.cxy, y = v.y / sc.cxy;
        if (!(std::abs(x) < grid.half_length_x_ - margin - ex)) return false;
        if (!(std::abs(y) < grid.half_length_y_ - margin - ex)) return false;
        if (!(std::abs(v.z / sc.cz) < grid.half_length_z_ - 4 - (sc.blade ? sc.cxy / sc.cz : 0))) return false;
    }
    return true;
}
double Episode::max_disp(const VF& p, const VF& q) {
    auto a = corner_arr(corners(p, q, *body()));
    auto b = corner_arr(corners(body()->pos_, body()->ori_, *body()));
    double m = 0;
    for (int k = 0; k < 6; k++) {
        double d = norm(a[k] - b[k]);
        if (!(d <= m)) m = d;
    }
    return m;
}

bool Episode::propose() {
    if (step_no == 0) return true;        // first pose
    double L = std::max(1e-6, static_cast<double>(sc.width));
    for (int attempt = 0; attempt < 12; attempt++) {
        if (seg_left <= 0 || attempt > 0) {
            seg_no += attempt == 0;
            seg_left = r.ri(3, 12);
            stepf = r.uf(0.5, 1.8);
            rotw = 0;
            axis = {r.uf(-1, 1), r.uf(-1, 1), r.uf(-1, 1)};
            double yaw = r.uf(-3.2, 3.2);
            V3 fwd{std::cos(yaw), std::sin(yaw), 0};
            switch (sc.program) {
                case 0: {                   // digging cycle
                    int ph = (seg_no + attempt) % 5;
                    V3 d[5] = {{fwd.x * .5, fwd.y * .5, -1}, {fwd.x, fwd.y, -.3}, {fwd.x, fwd.y, 0},
                               {fwd.x * .3, fwd.y * .3, 1}, {-fwd.x, -fwd.y, .2}};
                    vel = d[ph];
                    if (ph == 2 || ph == 4) { rotw = r.uf(-1.5, 1.5); axis = {-fwd.y, fwd.x, 0}; }
                    break;
                }
                case 1:                     // random walk
                    vel = {r.uf(-1, 1), r.uf(-1, 1), r.uf(-1, .7)};
                    if (r.ch(0.4)) rotw = r.uf(-1, 1);
                    break;
                case 2:                     // push
                    vel = seg_no < 2 ? V3{0, 0, -1} : V3{fwd.x, fwd.y, r.uf(-.15, .1)};
                    if (r.ch(0.2)) { rotw = r.uf(-.5, .5); axis = {0, 0, 1}; }
                    break;
                case 3:                     // jitter below and around the threshold
                    vel = {r.uf(-1, 1), r.uf(-1, 1), r.uf(-1, .5)};
                    stepf = r.uf(0.05, 0.6);
                    if (r.ch(0.3)) rotw = r.uf(-1, 1);
                    break;
                case 4:                     // teleports
                    vel = {r.uf(-1, 1), r.uf(-1, 1), r.uf(-1, 1)};
                    stepf = r.uf(2, 14);
                    if (r.ch(0.5)) rotw = r.uf(-1, 1);
                    seg_left = r.ri(1, 3);
                    break;
                case 5:                     // plunge
                    vel = (seg_no % 3 == 0) ? V3{0, 0, -1} : (seg_no % 3 == 1) ? V3{fwd.x, fwd.y, 0} : V3{0, 0, 1};
                    stepf = r.uf(0.8, 4);
                    break;
                case 6:                     // spin in place
                    vel = {0, 0, r.uf(-.1, .05)};
                    rotw = r.ch(0.5) ? 1 : -1;
                    axis = r.ch(0.5) ? V3{0, 0, 1} : V3{r.uf(-1, 1), r.uf(-1, 1), r.uf(-.3, .3)};
                    stepf = r.uf(0.5, 3);
                    break;
                default:                    // mixture
                    vel = {r.uf(-1, 1), r.uf(-1, 1), r.uf(-1, .6)};
                    stepf = r.ch(0.3) ? r.uf(1.9, 5) : r.uf(0.3, 1.9);
                    if (r.ch(0.5)) rotw = r.uf(-2, 2);
                    break;
            }
            double n = norm(vel);
            if (n > 1e-9) vel = (1 / n) * vel;
        }
        double target = stepf * sc.cz;
        double s = target;                 // metres along vel; rotation scaled by body size
        VF p, q;
        for (int it = 0; it < 4; it++) {
            p = {static_cast<float>(pos[0] + s * vel.x), static_cast<float>(pos[1] + s * vel.y),
                 static_cast<float>(pos[2] + s * vel.z)};
            q = rotw != 0 ? normalised(quat_mul(ori, axis_quat(axis, rotw * s / L))) : ori;
            auto a = corner_arr(corners(p, q, *body()));
            auto b = corner_arr(corners(pos, ori, *body()));
            double m = 0;
            for (int k = 0; k < 6; k++) m = std::max(m, norm(a[k] - b[k]));
            if (m < 1e-12) break;
            s *= std::min(3.0, std::max(0.2, target / m));
        }
        if (in_range(p, q)) {
            pos = p; ori = q; seg_left--;
            return true;
        }
    }
    return false;
}

bool Episode::do_step(const VF& p, const VF& q) {
    VF qq = q;
    if (sc.quat_mode == 1) { float f = static_cast<float>(r.uf(0.3, 3)); for (float& x : qq) x *= f; }
    if (sc.quat_mode == 2 && r.ch(0.5)) for (float& x : qq) x = -x;
    used_ori = qq;
    if (blade) return sim.Step(&so, p, qq, grid, blade.get(), param, sc.tol);
    return sim.Step(&so, p, qq, grid, bucket.get(), param, sc.tol);
}

void put_soil(SO& so, const ss::Grid& g, const ss::Body& b, const VF& pos, const VF& ori, int l, int i, int j,
              double h, bool proper) {
    float top = so.body_[l + 1][i][j];
    if (!has_soil(so, l, i, j)) { so.body_soil_[l][i][j] = top; so.body_soil_[l + 1][i][j] = top; }
    so.body_soil_[l + 1][i][j] += static_cast<float>(h);
    V3 c = cell_pos(g, i, j, top);
    V3 q = irot(ori, c - v3(pos));
    if (!proper) q = {0.1, 0.2, 0.3};
    so.body_soil_pos_.push_back(Rec{l, i, j, static_cast<float>(q.x), static_cast<float>(q.y),
                                    static_cast<float>(q.z), static_cast<float>(h)});
}

void Episode::add_body_soil(double density) {
    if (!(norm({body()->ori_[1], body()->ori_[2], body()->ori_[3]}) + std::abs(body()->ori_[0]) > 0)) return;
    int nx = NX(so), ny = NY(so);
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++)
            for (int l = 0; l < 4; l += 2) {
                if (!has_body(so, l, i, j) || !r.ch(density)) continue;
                int o = 2 - l;
                int k = r.ri(1, 8);
                if (has_body(so, o, i, j) && so.body_[o][i][j] > so.body_[l][i][j]) {
                    float base = has_soil(so, l, i, j) ? so.body_soil_[l + 1][i][j] : so.body_[l + 1][i][j];
                    int room = static_cast<int>(std::lround((so.body_[o][i][j] - base) / sc.cz));
                    k = r.ch(0.4) ? room : std::min(k, room);
                }
                if (k <= 0) continue;
                int parts = r.ri(1, std::min(k, 3));
                for (int a = 0; a < parts; a++) {
                    int n = a + 1 == parts ? k : r.ri(1, k - (parts - a - 1));
                    put_soil(so, grid, *body(), body()->pos_, body()->ori_, l, i, j, n * static_cast<double>(sc.cz));
                    k -= n;
                }
            }
}

int Episode::play(const std::function<void(Episode&)>& before, const std::function<void(Episode&, bool)>& after) {
    int acted = 0;
    for (step_no = 0; step_no < sc.steps; step_no++) {
        if (!propose()) break;
        if (sc.seed_soil && (step_no == 1 || (step_no > 1 && r.ch(0.05)))) add_body_soil(r.uf(0.1, 0.8));
        if (before) before(*this);
        bool ret = do_step(pos, ori);
        acted += ret;
        if (after) after(*this, ret);
        if (G.viol_case > 3) break;
        if (so.body_soil_pos_.size() > 5000) { G.count("histories cut at 5000 parcels"); break; }
    }
    return acted;
}

// ---------------------------------------------------------------- patches
void fill_cell(Rng& r, Patch& p, int i, int j, const PatchOpts& o, int base) {
    SO& s = p.so;
    float cz = static_cast<float>(p.cz);
    auto F = [&](int k) { return cz * static_cast<float>(k); };
    int kt = base + r.ri(-o.trange, o.trange);
    if (r.ch(0.25)) kt = base;
    s.terrain_[i][j] = F(kt);
    double u = r.u();
    if (u < o.p_none) return;
    bool both = u < o.p_none + o.p_both;
    int first = r.ch(0.5) ? 0 : 2;
    int z = kt + (r.ch(o.p_touch) ? 0 : r.ri(1, 5));
    if (o.overlap && r.ch(0.4)) z = kt - r.ri(1, 4);
    int th = r.ri(1, 4);
    int b0 = z, b1 = z + th;
    float fr = r.ch(o.p_frac) ? cz * static_cast<float>(r.uf(0.05, 0.95)) : 0;
    s.body_[first][i][j] = F(b0) + fr; s.body_[first + 1][i][j] = F(b1) + fr;
    int gap = r.ri(1, 6);
    int up = 2 - first;
    if (both) {
        s.body_[up][i][j] = F(b1 + gap) + fr; s.body_[up + 1][i][j] = F(b1 + gap + r.ri(1, 3)) + fr;
    }
    auto soil = [&](int l, int k) {
        if (k <= 0) return;
        int parts = r.ch(0.4) ? 1 : r.ri(1, std::min(k, 4));
        for (int a = 0; a < parts; a++) {
            int n = a + 1 == parts ? k : r.ri(1, k - (parts - a - 1));
            put_soil(s, *p.grid, *p.body, p.body->pos_, p.body->ori_, l, i, j, n * static_cast<double>(cz));
            k -= n;
        }
    };
    if (r.ch(o.p_soil)) {
        int k = both ? (r.ch(0.4) ? gap : r.ri(0, gap)) : r.ri(1, 8);
        if (both && o.overlap && r.ch(0.4)) k = gap + r.ri(1, 5);
        soil(first, k);
    }
    if (both && r.ch(o.p_soil)) soil(up, r.ri(1, 7));
}

std::unique_ptr<Patch> make_patch(Rng& r, const PatchOpts& o) {
    auto p = std::make_unique<Patch>();
    static const float XY[] = {0.05f, 0.1f, 0.05f, 0.1f, 0.2f, 1.0f};
    static const float RATIO[] = {1.0f, 0.5f, 0.25f, 0.2f, 0.1f};
    float cxy = any_scale(r, XY[r.ri(0, 5)]), cz = static_cast<float>(cxy * RATIO[r.ri(0, 4)]);
    if (o.dyadic) { cxy = std::ldexp(1.0f, r.ri(-6, 3)); cz = std::ldexp(cxy, -r.ri(0, 3)); }
    int nx = r.ri(o.nmin, o.nmax), ny = r.ri(o.nmin, o.nmax);
    p->grid = std::make_unique<ss::Grid>(nx * cxy, ny * cxy, 60 * cz, cxy, cz);
    p->cz = p->grid->cell_size_z_; p->cxy = p->grid->cell_size_xy_;
    p->tol = fit_tol(p->cxy, p->cz, p->tol);
    p->body = std::make_unique<ss::Bucket>(VF{0, 0, 0}, VF{0, 0, 0}, VF{0, 0, -0.5f}, VF{0.7f, 0, -0.5f}, 0.5f);
    double reach = std::min(1.0, 20.0 * p->cxy);
    p->body->pos_ = {static_cast<float>(r.uf(-reach, reach)), static_cast<float>(r.uf(-reach, reach)), static_cast<float>(r.uf(-reach, reach))};
    p->body->ori_ = r.ch(0.2) ? VF{1, 0, 0, 0} : random_quat(r);
    p->so = SO(*p->grid);
    int base = r.ch(0.4) ? 0 : r.ri(-20, 20);
    for (int i = 0; i < NX(p->so); i++)
        for (int j = 0; j < NY(p->so); j++) {
            int e = std::min(std::min(i, NX(p->so) - 1 - i), std::min(j, NY(p->so) - 1 - j));
            if (o.border_free && e < 2) { p->so.terrain_[i][j] = cz * static_cast<float>(base + r.ri(-3, 3)); continue; }
            fill_cell(r, *p, i, j, o, base);
        }
    return p;
}
}  // namespace sm
