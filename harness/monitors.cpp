#include "monitors.hpp"

namespace sm {
Transport make_transport(Rng& r, bool fractions) {
    Transport t;
    t.p = std::make_unique<Patch>();
    Patch& p = *t.p;
    static const float XY[] = {0.05f, 0.1f, 0.05f, 0.1f, 0.2f, 1.0f};
    static const float RATIO[] = {1.0f, 0.5f, 0.25f, 0.2f, 0.1f};
    float cxy = any_scale(r, XY[r.ri(0, 5)]), cz = static_cast<float>(cxy * RATIO[r.ri(0, 4)]);
    int nx = r.ri(9, 12), ny = r.ri(9, 12);
    p.grid = std::make_unique<ss::Grid>(nx * cxy, ny * cxy, 90 * cz, cxy, cz);
    p.cz = p.grid->cell_size_z_; p.cxy = p.grid->cell_size_xy_;
    p.tol = fit_tol(p.cxy, p.cz, p.tol);
    p.body = std::make_unique<ss::Bucket>(VF{0, 0, 0}, VF{0, 0, 0}, VF{0, 0, -0.5f}, VF{0.7f, 0, -0.5f}, 0.5f);
    p.body->pos_ = {static_cast<float>(r.uf(-2, 2) * cxy), static_cast<float>(r.uf(-2, 2) * cxy),
                    static_cast<float>(r.uf(-2, 2) * cxy)};
    p.body->ori_ = r.ch(0.2) ? VF{1, 0, 0, 0} : random_quat(r);
    p.so = SO(*p.grid);
    SO& s = p.so;
    int base = r.ch(0.3) ? 0 : r.ri(-20, 20);
    int layers = r.ri(0, 2);       // sparse, medium, dense footprints
    double pn = layers == 0 ? 0.75 : layers == 1 ? 0.35 : 0.05;
    PatchOpts o;
    o.p_none = pn; o.p_both = (1 - pn) * 0.5; o.p_soil = 0; o.trange = r.ri(0, 5); o.p_touch = 0.7;
    for (int i = 0; i < NX(s); i++)
        for (int j = 0; j < NY(s); j++) fill_cell(r, p, i, j, o, base);
    // the soil as it was before the move: rests at the old pose
    int mode = r.ri(0, 3);
    V3 d{r.uf(-1.6, 1.6) * cxy, r.uf(-1.6, 1.6) * cxy, r.uf(-2, 2) * cz};
    if (mode == 1) d = {0, 0, r.uf(-4, 4) * cz};
    if (mode == 2) d = {r.uf(-1.6, 1.6) * cxy, 0, 0};
    t.pos = {static_cast<float>(p.body->pos_[0] + d.x), static_cast<float>(p.body->pos_[1] + d.y),
             static_cast<float>(p.body->pos_[2] + d.z)};
    t.ori = p.body->ori_;
    if (mode == 3 || r.ch(0.3)) {
        VF q = quat_mul(p.body->ori_, axis_quat({r.uf(-1, 1), r.uf(-1, 1), r.uf(-1, 1)}, r.uf(-0.12, 0.12)));
        t.ori = q;
    }
    int n = r.ri(1, 30);
    SO before = s;
    for (int k = 0; k < n; k++) {
        int i = r.ri(4, NX(s) - 5), j = r.ri(4, NY(s) - 5), l = 2 * r.ri(0, 1);
        // target: near some layer top after the move, or anywhere
        double z;
        if (has_body(s, l, i, j) && r.ch(0.85)) z = s.body_[l + 1][i][j] + r.uf(-2, 2) * cz;
        else z = (base + r.uf(-20, 20)) * cz;
        V3 c = cell_pos(*p.grid, i, j, z);
        if (r.ch(0.6)) { c.x += r.uf(-0.7, 0.7) * cxy; c.y += r.uf(-0.7, 0.7) * cxy; }
        // point such that the new pose puts it at c
        V3 q = irot(t.ori, c - v3(t.pos));
        int h = r.ri(1, 6);
        double hh = h * static_cast<double>(cz);
        if (r.ch(0.1)) hh += r.uf(-0.05, 0.05) * cz;
        if (r.ch(0.06)) hh = r.uf(0, 0.85) * cz;
        if (fractions && r.ch(0.08)) hh = r.uf(0.85, 5) * cz;
        // old location: the cell its point occupies at the old pose
        V3 w = rot(p.body->ori_, q) + v3(p.body->pos_);
        int io = static_cast<int>(std::lround(w.x / cxy)) + p.grid->half_length_x_;
        int jo = static_cast<int>(std::lround(w.y / cxy)) + p.grid->half_length_y_;
        io = std::max(1, std::min(NX(s) - 2, io)); jo = std::max(1, std::min(NY(s) - 2, jo));
        if (s.body_soil_[l][io][jo] == 0 && s.body_soil_[l + 1][io][jo] == 0) {
            s.body_soil_[l][io][jo] = static_cast<float>(std::round(w.z / cz) * cz);
            s.body_soil_[l + 1][io][jo] = s.body_soil_[l][io][jo];
        }
        s.body_soil_[l + 1][io][jo] += static_cast<float>(hh);
        s.body_soil_pos_.push_back(Rec{l, io, jo, static_cast<float>(q.x), static_cast<float>(q.y),
                                       static_cast<float>(q.z), static_cast<float>(hh)});
    }
    return t;
}

// A patch around one (or several) columns reaching into the layer above them, closed by a ring without body.
std::unique_ptr<Patch> make_squeeze(Rng& r, int nsrc) {
    PatchOpts o;
    int style = r.ri(0, 4);
    o.nmin = 5; o.nmax = 8; o.border_free = true;
    o.p_none = style == 0 ? 0.3 : style == 1 ? 0.05 : 0.1;
    o.p_both = style == 0 ? 0.35 : style == 1 ? 0.9 : style == 2 ? 0.6 : 0.3;
    o.p_soil = r.uf(0, 1);
    o.trange = r.ri(0, 3);
    auto p = make_patch(r, o);
    SO& s = p->so;
    double cz = p->cz;
    for (int n = 0; n < nsrc; n++) {
        int i = r.ri(3, NX(s) - 4), j = r.ri(3, NY(s) - 4);
        // remove what is there
        for (int l = 0; l < 4; l++) { s.body_[l][i][j] = 0; s.body_soil_[l][i][j] = 0; }
        auto& v = s.body_soil_pos_;
        v.erase(std::remove_if(v.begin(), v.end(), [&](const Rec& q) { return q.ii == i && q.jj == j; }), v.end());
        int lo = r.ch(0.5) ? 0 : 2, hi = 2 - lo;
        int kt = static_cast<int>(std::lround(s.terrain_[i][j] / cz));
        int b0 = kt + r.ri(0, 3), b1 = b0 + r.ri(1, 3), gap = r.ri(1, 8), th = r.ri(1, 3);
        auto F = [&](int k) { return static_cast<float>(cz) * static_cast<float>(k); };
        s.body_[lo][i][j] = F(b0); s.body_[lo + 1][i][j] = F(b1);
        s.body_[hi][i][j] = F(b1 + gap); s.body_[hi + 1][i][j] = F(b1 + gap + th);
        int ex = r.ri(1, 12), k = gap + ex, parts = r.ch(0.5) ? 1 : r.ri(1, std::min(4, k));
        std::vector<int> cut;
        for (int a = 0; a < parts; a++) {
            int m = a + 1 == parts ? k : r.ri(1, k - (parts - a - 1));
            cut.push_back(m);
            k -= m;
        }
        if (nsrc == 1 && r.ch(0.4) && parts > 1) {}
        for (int m : cut) put_soil(s, *p->grid, *p->body, p->body->pos_, p->body->ori_, lo, i, j, m * cz);
        if (r.ch(0.5)) put_soil(s, *p->grid, *p->body, p->body->pos_, p->body->ori_, hi, i, j, r.ri(1, 5) * cz);
        // walls next to it now and then
        if (style >= 3) {
            double pw = r.ch(0.4) ? 1.0 : 0.6;
            int roof = b1 + gap;
            for (int x = 0; x < 8; x++) {
                if (!r.ch(pw)) continue;
                int dist = r.ch(0.7) ? 1 : 2;
                int a = i + dist * DX8[x], b = j + dist * DY8[x];
                if (a < 1 || b < 1 || a > NX(s) - 2 || b > NY(s) - 2) continue;
                for (int l = 0; l < 4; l++) { s.body_[l][a][b] = 0; s.body_soil_[l][a][b] = 0; }
                v.erase(std::remove_if(v.begin(), v.end(), [&](const Rec& q) { return q.ii == a && q.jj == b; }), v.end());
                int l = r.ch(0.5) ? 0 : 2;
                int bot = std::min(b0 + r.ri(-1, 1), b1), top = roof + (r.ch(0.75) ? r.ri(0, 4) : r.ri(-2, 0));
                if (top <= bot) top = bot + 1;
                s.body_[l][a][b] = F(bot); s.body_[l + 1][a][b] = F(top);
                int t = static_cast<int>(std::lround(s.terrain_[a][b] / cz));
                if (t > bot) s.terrain_[a][b] = F(bot);
            }
        }
    }
    // shuffle the order of the parcels
    auto& v = s.body_soil_pos_;
    for (size_t a = v.size(); a > 1; a--) std::swap(v[a - 1], v[r.next() % a]);
    return p;
}

// A patch with terrain reaching into the body in nsrc columns (nsrc = 0: wherever it happens)
std::unique_ptr<Patch> make_cut(Rng& r, int nsrc, int extra) {
    PatchOpts o;
    o.nmin = 5 + extra; o.nmax = 8 + extra; o.border_free = true;
    int style = r.ri(0, 2);
    o.p_none = style == 0 ? 0.4 : style == 1 ? 0.1 : 0.02;
    o.p_both = r.uf(0.1, 0.6);
    o.p_touch = style == 2 ? 0.9 : r.uf(0.2, 0.95);
    o.p_soil = 0.2;
    o.trange = r.ri(0, 4);
    o.overlap = nsrc == 0;
    auto p = make_patch(r, o);
    SO& s = p->so;
    float cz = static_cast<float>(p->cz);
    for (int n = 0; n < nsrc; n++) {
        int i = r.ri(3, NX(s) - 4), j = r.ri(3, NY(s) - 4);
        if (!has_body(s, 0, i, j) && !has_body(s, 2, i, j)) {
            int l = r.ch(0.5) ? 0 : 2, k = static_cast<int>(std::lround(s.terrain_[i][j] / cz));
            s.body_[l][i][j] = cz * static_cast<float>(k); s.body_[l + 1][i][j] = cz * static_cast<float>(k + 2);
        }
        int k = static_cast<int>(std::lround(min_bottom(cell(s, i, j)) / cz));
        s.terrain_[i][j] = cz * static_cast<float>(k + r.ri(1, r.ch(0.3) ? 30 : 8));
    }
    if (r.ch(0.4)) {        // an area that does not cover everything
        int a = r.ri(1, NX(s) / 2), b = r.ri(NX(s) / 2 + 1, NX(s) - 1), c = r.ri(1, NY(s) / 2), d = r.ri(NY(s) / 2 + 1, NY(s) - 1);
        s.body_area_[0][0] = a; s.body_area_[0][1] = b; s.body_area_[1][0] = c; s.body_area_[1][1] = d;
        // the row and column of the upper limits are left undecided
        for (int i = 0; i < NX(s); i++)
            for (int j = 0; j < NY(s); j++)
                if (i == b || j == d) {
                    double bot = min_bottom(cell(s, i, j));
                    if (bot < 1e8 && s.terrain_[i][j] > bot) s.terrain_[i][j] = static_cast<float>(bot);
                }
    }
    return p;
}
}  // namespace sm
