// P12 transport of the soil on the body, P13 squeezed body soil, P14 terrain cut by the body.
#include "monitors.hpp"
using namespace sm;

namespace {
const double BIG = 1e18;

// ---------------------------------------------------------------- P12
struct Place { int ind, i, j; bool operator<(const Place& o) const { return std::tie(ind, i, j) < std::tie(o.ind, o.i, o.j); } };

// Cells and layers (ind -1: terrain) a transported point may go to. `body` holds the layers at the new pose.
std::set<Place> transport_dests(const SO& s, const ss::Grid& g, double tol, V3 np, V3 op, bool& complete) {
    std::set<Place> out;
    double cxy = g.cell_size_xy_, cz = g.cell_size_z_;
    double epos = 2e-6 * (1 + norm(np) + norm(op)), exy = 3e-4 + epos / cxy;
    Amb a(0);
    int guard = 0;
    complete = true;
    do {
        a.pos = 0;
        auto lt = [&](double x, double y, double eps) { a.eps = eps; return a.lt(x, y); };
        auto near = [&](double u) {      // nearest integer, either one next to a half
            double f = std::floor(u);
            return static_cast<int>(f) + (lt(u - f, 0.5, exy) ? 0 : 1);
        };
        int in = near(np.x / cxy + g.half_length_x_), jn = near(np.y / cxy + g.half_length_y_);
        double dx = np.x - op.x, dy = np.y - op.y;
        int sx = lt(dx, 0, epos) ? -1 : 1, sy = lt(dy, 0, epos) ? -1 : 1;
        bool alongx = lt(std::abs(dy), std::abs(dx), 2 * epos);
        int d[9][2];
        if (alongx) {
            int t[9][2] = {{0, 0}, {sx, 0}, {sx, sy}, {0, sy}, {sx, -sy}, {0, -sy}, {-sx, sy}, {-sx, 0}, {-sx, -sy}};
            memcpy(d, t, sizeof t);
        } else {
            int t[9][2] = {{0, 0}, {0, sy}, {sx, sy}, {sx, 0}, {-sx, sy}, {-sx, 0}, {sx, -sy}, {0, -sy}, {-sx, -sy}};
            memcpy(d, t, sizeof t);
        }
        Place best{-1, in, jn};
        double bd = BIG;
        bool done = false;
        for (int k = 0; k < 9 && !done; k++) {
            int i = in + d[k][0], j = jn + d[k][1];
            if (i < 0 || j < 0 || i >= NX(s) || j >= NY(s)) continue;
            for (int l = 0; l < 4 && !done; l += 2) {
                if (!has_body(s, l, i, j)) continue;
                double dist = std::abs(np.z - s.body_[l + 1][i][j]);
                if (lt(dist, cz + tol, 3e-4 * cz + epos)) { best = {l, i, j}; done = true; }
                else if (bd == BIG || lt(dist, bd, 3e-4 * cz + epos)) { bd = std::min(bd, dist); best = {l, i, j}; }
            }
        }
        out.insert(best);
        if (++guard > 3000) { complete = false; break; }
    } while (a.next());
    return out;
}

struct P12 {
    void check(const char* where, const SO& pre, const SO& post, const VF& pos, const VF& ori, const VF& bpos,
               const VF& bori, const ss::Grid& g, const ss::Body& b, double tol, long warned) {
        double cz = g.cell_size_z_;
        G.count(std::string("transports in ") + where);
        if (!same_bits(pre.body_, post.body_)) G.viol("body changed", "%s: transport changed the body layers", where);
        if (!same_areas(pre, post)) G.viol("areas changed", "%s: transport changed the areas", where);
        if (b.pos_ != pos || b.ori_ != ori) G.viol("pose", "%s: the body does not remember the new pose", where);
        // parcels
        struct Want { double lo, hi; bool maydrop; std::set<Place> to; bool complete; const Rec* r; };
        std::vector<Want> want;
        for (auto& r : pre.body_soil_pos_) {
            double q = r.h_soil / cz;
            if (q < 0.9 - 1e-4) { G.count("remnants dropped"); continue; }
            V3 p{r.x_b, r.y_b, r.z_b};
            Want w;
            w.r = &r;
            w.maydrop = q < 0.9 + 1e-4;
            w.lo = std::floor(q + 0.5 - 1e-4); w.hi = std::floor(q + 0.5 + 1e-4);
            w.to = transport_dests(post, g, tol, rot(ori, p) + v3(pos), rot(bori, p) + v3(bpos), w.complete);
            G.count("parcels transported");
            if (w.to.size() > 1) G.count("parcels with more than one admissible place");
            else {
                const Place& t = *w.to.begin();
                V3 np = rot(ori, p) + v3(pos);
                int in = static_cast<int>(std::lround(np.x / g.cell_size_xy_)) + g.half_length_x_;
                int jn = static_cast<int>(std::lround(np.y / g.cell_size_xy_)) + g.half_length_y_;
                bool closest = t.ind >= 0 && std::abs(np.z - post.body_[t.ind + 1][t.i][t.j]) > cz + tol;
                G.count(t.ind < 0 ? "parcels expected on the terrain" : closest ? "parcels expected on the closest layer" :
                        t.i == in && t.j == jn ? "parcels expected in their own cell" : "parcels expected in a neighbouring cell");
                if (!(t.ind >= 0 && t.i == in && t.j == jn && !closest)) G.nontrivial(mix(hash_bytes(&r.x_b, 12), hash_bytes(pos.data(), 12)));
                else G.nontrivial(mix(hash_bytes(&r.x_b, 12), 5));
            }
            want.push_back(w);
        }
        // match them with what is there now: by point, then by place
        std::vector<char> used(post.body_soil_pos_.size(), 0);
        std::map<std::tuple<float, float, float>, std::vector<size_t>> by;
        for (size_t k = 0; k < post.body_soil_pos_.size(); k++) {
            auto& r = post.body_soil_pos_[k];
            by[{r.x_b, r.y_b, r.z_b}].push_back(k);
        }
        double toterr_lo = 0, toterr_hi = 0;
        std::map<std::pair<int, int>, double> terr;
        long nterr = 0;
        bool loose = false;
        for (auto& w : want) {
            auto it = by.find({w.r->x_b, w.r->y_b, w.r->z_b});
            bool ok = false, amount_ok = false, any = false;
            Rec seen{};
            if (it != by.end())
                for (size_t k : it->second) {
                    if (used[k]) continue;
                    auto& r = post.body_soil_pos_[k];
                    double q = r.h_soil / cz;
                    bool am = std::abs(q - w.lo) < 2e-3 * (1 + q * 0.01) || std::abs(q - w.hi) < 2e-3 * (1 + q * 0.01);
                    if (!any) { seen = r; any = true; }
                    if (!am) continue;
                    amount_ok = true; seen = r;
                    if (w.to.count({r.ind, r.ii, r.jj}) || !w.complete) { used[k] = 1; ok = true; break; }
                }
            if (ok) continue;
            bool terrain = false;
            for (auto& t : w.to) if (t.ind < 0) terrain = true;
            if (terrain && !amount_ok) {
                nterr++;
                toterr_lo += w.lo; toterr_hi += w.hi;
                if (w.to.size() == 1 && w.lo == w.hi) terr[{w.to.begin()->i, w.to.begin()->j}] += w.lo * cz;
                else loose = true;
                continue;
            }
            if (w.maydrop && !any) continue;
            const Place& t = *w.to.begin();
            if (!any)
                G.viol("parcel missing", "%s: parcel of %.4f cells at body point (%.6g,%.6g,%.6g) is gone; expected layer %d cell (%d,%d)",
                       where, w.r->h_soil / cz, w.r->x_b, w.r->y_b, w.r->z_b, t.ind, t.i, t.j);
            else if (!amount_ok)
                G.viol("parcel amount", "%s: parcel of %.5f cells became %.5f", where, w.r->h_soil / cz, seen.h_soil / cz);
            else
                G.viol("parcel place", "%s: parcel at body point (%.6g,%.6g,%.6g) was put on layer %d cell (%d,%d), expected layer %d "
                       "cell (%d,%d) (%zu admissible); cell there: %s", where, w.r->x_b, w.r->y_b, w.r->z_b, seen.ind, seen.ii, seen.jj,
                       t.ind, t.i, t.j, w.to.size(), show(cell(post, t.i, t.j)).c_str());
        }
        for (size_t k = 0; k < used.size(); k++)
            if (!used[k]) {
                auto& r = post.body_soil_pos_[k];
                G.viol("parcel invented", "%s: unexpected parcel of %.4f cells at layer %d cell (%d,%d)", where, r.h_soil / cz, r.ind, r.ii, r.jj);
                break;
            }
        if (nterr != warned) G.viol("warnings", "%s: %ld parcels went to the terrain but %ld warnings", where, nterr, warned);
        // terrain
        double moved = 0;
        for (int i = 0; i < NX(post); i++)
            for (int j = 0; j < NY(post); j++) {
                double d = static_cast<double>(post.terrain_[i][j]) - pre.terrain_[i][j];
                moved += d;
                auto t = terr.find({i, j});
                double e = t == terr.end() ? 0 : t->second;
                if (loose ? d < -1e-6 : std::abs(d - e) > 0.02 * cz)
                    G.viol("terrain", "%s: terrain cell (%d,%d) changed by %.4f cells, expected %.4f", where, i, j, d / cz, e / cz);
            }
        if (moved < toterr_lo * cz - 0.05 * cz || moved > toterr_hi * cz + 0.05 * cz)
            G.viol("terrain total", "%s: terrain received %.4f cells, expected %.4f", where, moved / cz, toterr_lo);
        // columns
        std::map<Place, double> sum;
        for (auto& r : post.body_soil_pos_) sum[{r.ind, r.ii, r.jj}] += r.h_soil;
        std::set<Place> oldp;
        for (auto& r : pre.body_soil_pos_) oldp.insert({r.ind, r.ii, r.jj});
        for (int l = 0; l < 4; l += 2)
            for (int i = 0; i < NX(post); i++)
                for (int j = 0; j < NY(post); j++) {
                    auto it = sum.find({l, i, j});
                    float lo = post.body_soil_[l][i][j], hi = post.body_soil_[l + 1][i][j];
                    if (it != sum.end()) {
                        if (std::abs(lo - post.body_[l + 1][i][j]) > 0.01 * cz || std::abs(hi - lo - it->second) > 0.02 * cz + 1e-4 * it->second)
                            G.viol("column", "%s: layer %d cell (%d,%d): column %.6g..%.6g, layer top %.6g, parcels %.6g", where, l, i, j,
                                   lo, hi, post.body_[l + 1][i][j], it->second);
                    } else if (oldp.count({l, i, j})) {
                        if (lo != 0 || hi != 0)
                            G.viol("left behind", "%s: layer %d cell (%d,%d) still holds soil %.6g..%.6g without any parcel", where, l, i, j, lo, hi);
                    } else if (lo != pre.body_soil_[l][i][j] || hi != pre.body_soil_[l + 1][i][j])
                        G.viol("untouched column", "%s: layer %d cell (%d,%d) changed although nothing was there", where, l, i, j);
                }
    }
};
}  // namespace

static void p12_case() {
    Rng r = G.rng();
    P12 m;
    if (G.case_idx % 2 == 1) {
        for (int k = 0; k < 30 && G.viol_case < 3; k++) {
            Transport t = make_transport(r, true);
            SO pre = t.p->so;
            VF bp = t.p->body->pos_, bo = t.p->body->ori_;
            long w0 = W.n[W_BSOIL];
            ss::UpdateBodySoil(&t.p->so, t.pos, t.ori, *t.p->grid, t.p->body.get(), t.p->tol);
            m.check("synthetic state", pre, t.p->so, t.pos, t.ori, bp, bo, *t.p->grid, *t.p->body, t.p->tol, W.n[W_BSOIL] - w0);
        }
        return;
    }
    ScenOpts so;
    so.seed_soil = 1;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    H.update_body_soil = [&](SO* s, VF& pos, VF& ori, ss::Grid& g, ss::Body* b, float tol, Call real) {
        SO pre = *s;
        VF bp = b->pos_, bo = b->ori_, p = pos, o = ori;
        long w0 = W.n[W_BSOIL];
        real();
        m.check("history", pre, *s, p, o, bp, bo, g, *b, tol, W.n[W_BSOIL] - w0);
    };
    long far = 0;
    e.play(nullptr, [&](Episode& ep, bool ret) {
        if (!ret) return;
        // consistency seen from outside: parcels are never far from the body they ride on
        for (auto& q : ep.so.body_soil_pos_)
            if (!has_body(ep.so, q.ind, q.ii, q.jj)) far++;
    });
    if (far) G.viol("parcel off body", "%ld parcels are in cells without their layer after a step", far);
    G.sample("%s, %d steps, %zu parcels at the end", sc.text().c_str(), e.step_no, e.so.body_soil_pos_.size());
}
static Reg r12({"P12", "case = one simulated history with soil on the body or 30 single transports of a synthetic state; each "
    "parcel is followed individually against the documented search order; non-trivial = a transported parcel, counted by its "
    "body point (and by the pose when it does not simply stay in its own cell)", p12_case, 4000, 60000});

// ---------------------------------------------------------------- P13
namespace {
struct Dep { int ind, i, j; double h; };
struct Walk { std::vector<Dep> dep; double rest; bool wall = false; };
// One direction of the documented walk, starting from the column of layer `ind` at (i, j) with amount h.
Walk walk(const SO& s, int ind, int i, int j, int dx, int dy, double h, double tol, Amb& a) {
    Walk w;
    int pi = i, pj = j, pind = ind;
    double roof = std::max<double>(s.body_[0][i][j], s.body_[2][i][j]);
    for (int k = 1; h > tol; k++) {
        int ni = i + k * dx, nj = j + k * dy;
        if (ni < 0 || nj < 0 || ni >= NX(s) || nj >= NY(s)) break;
        CellV c = cell(s, ni, nj);
        bool B0 = c.B(0), B2 = c.B(2);
        if (!B0 && !B2) { w.dep.push_back({-1, ni, nj, h}); h = 0; break; }
        if (B0 != B2) {
            int l = B0 ? 0 : 2;
            if (a.lt(s.body_[pind + 1][pi][pj] + tol, c.b[l])) { w.dep.push_back({-1, ni, nj, h}); h = 0; break; }
            if (!a.lt(c.b[l + 1] + tol, roof)) { w.wall = true; break; }
            w.dep.push_back({l, ni, nj, h}); h = 0; break;
        }
        int lo = low_layer(c), hi = 2 - lo;
        double top = c.S(lo) ? c.s[lo + 1] : c.b[lo + 1], room = c.b[hi] - top;
        if (!(c.S(lo) && !a.lt(c.s[lo + 1] + tol, c.b[hi]))) {
            if (room < h - 1e-9) { w.dep.push_back({lo, ni, nj, room}); h -= room; }
            else { w.dep.push_back({lo, ni, nj, h}); h = 0; break; }
        }
        pi = ni; pj = nj; pind = lo;
        roof = std::max(c.b[0], c.b[2]);
    }
    w.rest = h;
    return w;
}

struct Source { int ind, i, j; double excess; int recs; };
std::vector<Source> squeezed(const SO& s, double tol) {
    std::map<Place, int> n;
    for (auto& r : s.body_soil_pos_) n[{r.ind, r.ii, r.jj}]++;
    std::vector<Source> v;
    for (auto& [p, k] : n) {
        if (!has_body(s, 2 - p.ind, p.i, p.j)) continue;
        double roof = s.body_[2 - p.ind][p.i][p.j];
        if (!(roof > s.body_[p.ind][p.i][p.j])) continue;
        double e = static_cast<double>(s.body_soil_[p.ind + 1][p.i][p.j]) - roof;
        if (e > tol) v.push_back({p.ind, p.i, p.j, e, k});
    }
    return v;
}

struct P13 {
    void check(const char* where, const SO& pre, const SO& post, const ss::Grid& g, const ss::Body& b, double tol, long warned) {
        double cz = g.cell_size_z_, slack = 0.02 * cz + 2 * tol;
        auto src = squeezed(pre, tol);
        G.count(std::string("calls in ") + where);
        if (!same_bits(pre.body_, post.body_) || !same_areas(pre, post)) G.viol("body changed", "%s: body layers or areas changed", where);
        if (src.empty()) {
            if (!same_soil(pre, post)) G.viol("nothing to do", "%s: no soil intersects a layer but soil moved", where);
            return;
        }
        G.count(std::string("calls with squeezed soil in ") + where);
        G.nontrivial(digest(pre));
        int nx = NX(pre), ny = NY(pre);
        auto is_src = [&](int l, int i, int j) -> const Source* {
            for (auto& q : src) if (q.ind == l && q.i == i && q.j == j) return &q;
            return nullptr;
        };
        // columns: cut sources, nobody else loses
        std::map<Place, double> gain;
        double lost = 0;
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++) {
                double d = static_cast<double>(post.terrain_[i][j]) - pre.terrain_[i][j];
                if (d < -1e-6) G.viol("terrain lowered", "%s: terrain cell (%d,%d) was lowered by %.4f cells", where, i, j, -d / cz);
                if (d > 0.3 * cz) gain[{-1, i, j}] = d;
                else if (d > slack) G.viol("fraction", "%s: terrain cell (%d,%d) rose by %.4f cells", where, i, j, d / cz);
                lost -= d;
                for (int l = 0; l < 4; l += 2) {
                    double c0 = col(pre, l, i, j), c1 = col(post, l, i, j);
                    lost += c0 - c1;
                    if (auto* q = is_src(l, i, j)) {
                        double roof = pre.body_[2 - l][i][j];
                        if (std::abs(post.body_soil_[l + 1][i][j] - roof) > slack)
                            G.viol("not cut", "%s: layer %d cell (%d,%d) reached %.3f cells into the layer above, and %.3f cells afterwards "
                                   "(%d parcels)", where, l, i, j, q->excess / cz, (post.body_soil_[l + 1][i][j] - roof) / cz, q->recs);
                        continue;
                    }
                    if (c1 < c0 - 1e-6) G.viol("column lost", "%s: layer %d cell (%d,%d) lost %.4f cells without intersecting", where, l, i, j, (c0 - c1) / cz);
                    if (c1 > c0 + 0.3 * cz) {
                        gain[{l, i, j}] = c1 - c0;
                        if (!has_body(post, l, i, j) || std::abs(post.body_soil_[l][i][j] - post.body_[l + 1][i][j]) > slack)
                            G.viol("bad landing", "%s: soil in layer %d cell (%d,%d) does not rest on that layer", where, l, i, j);
                        if (has_body(post, 2 - l, i, j) && post.body_[2 - l][i][j] > post.body_[l][i][j] &&
                            post.body_soil_[l + 1][i][j] > post.body_[2 - l][i][j] + slack)
                            G.viol("overfilled", "%s: soil pushed through the upper layer in cell (%d,%d)", where, i, j);
                    }
                }
            }
        // parcels: the old ones keep their place and point and only shrink at sources
        std::map<RecKey, double> a, c;
        for (auto& q : pre.body_soil_pos_) a[key_of(q)] += q.h_soil;
        for (auto& q : post.body_soil_pos_) c[key_of(q)] += q.h_soil;
        for (auto& [k, h] : a) {
            double h2 = c.count(k) ? c[k] : 0;
            if (h2 < h - slack && !is_src(k.ind, k.ii, k.jj))
                G.viol("parcel shrank", "%s: parcel in layer %d cell (%d,%d) shrank from %.3f to %.3f cells", where, k.ind, k.ii, k.jj, h / cz, h2 / cz);
        }
        double pt = 0.02 * cz + 2e-6 * grid_reach(g) + 1e-5;
        for (auto& q : post.body_soil_pos_) {
            if (a.count(key_of(q))) continue;
            double d = pose_gap(post, g, b, q);
            if (!(d <= pt)) G.viol("new parcel point", "%s: new parcel in layer %d cell (%d,%d) has its point %.4g m away from the layer top", where,
                                   q.ind, q.ii, q.jj, d);
        }
        G.count("places that received soil", static_cast<long>(gain.size()));
        // loss only when announced
        if (lost > 0.05 * cz && !warned) G.viol("silent loss", "%s: %.4f cells disappeared without a warning", where, lost / cz);
        if (lost < -0.05 * cz) G.viol("created", "%s: %.4f cells appeared", where, -lost / cz);
        if (warned && lost < 0.3 * cz) G.viol("false warning", "%s: a loss was announced but nothing was lost", where);
        // which places can be reached from which column along open straight lines
        auto closed = [&](const SO& s, int i, int j) {     // both layers present and the room between them is used up
            CellV q = cell(s, i, j);
            if (!q.B(0) || !q.B(2)) return false;
            int lo = low_layer(q), hi = 2 - lo;
            double top = q.S(lo) ? q.s[lo + 1] : q.b[lo + 1];
            return top > q.b[hi] - slack;
        };
        for (auto& [p, d] : gain) {
            bool ok = false;
            for (auto& q : src) {
                for (int x = 0; x < 8 && !ok; x++) {
                    int i = q.i + DX8[x], j = q.j + DY8[x];
                    while (i >= 0 && j >= 0 && i < nx && j < ny) {
                        if (i == p.i && j == p.j) { ok = true; break; }
                        if (!closed(post, i, j)) break;
                        i += DX8[x]; j += DY8[x];
                    }
                }
            }
            if (!ok) G.viol("unreachable", "%s: layer %d cell (%d,%d) received %.3f cells but no squeezed column reaches it along an open line", where,
                            p.ind, p.i, p.j, d / cz);
        }
        if (src.size() != 1) { G.count("calls with several squeezed columns"); return; }
        // exact: a single squeezed column
        const Source& q = src[0];
        G.count("single columns"); if (q.recs > 1) G.count("single columns with several parcels");
        std::map<Place, double> left = gain;
        int open_dirs = 0;
        double got = 0;
        std::vector<double> D(8, 0);
        bool dead = false, clash = false;
        std::vector<bool> fullok(8, false);
        for (int x = 0; x < 8; x++) {
            // deposits seen on this line
            std::map<Place, double> seen;
            for (auto& [p, d] : gain) {
                int di = p.i - q.i, dj = p.j - q.j, k = std::max(std::abs(di), std::abs(dj));
                if (k && di == k * DX8[x] && dj == k * DY8[x]) { seen[p] = d; D[x] += d; left.erase(p); }
            }
            got += D[x];
            bool term = D[x] == 0, full = false;
            Amb am(0.2 * tol + 1e-3 * cz * 0.01);
            int guard = 0;
            auto match = [&](const Walk& w) {
                std::map<Place, double> m;
                for (auto& t : w.dep) m[{t.ind, t.i, t.j}] += t.h;
                for (auto it = m.begin(); it != m.end();) { if (it->second < 0.3 * cz) it = m.erase(it); else ++it; }
                if (m.size() != seen.size()) return false;
                for (auto& [p, d] : m) { auto f = seen.find(p); if (f == seen.end() || std::abs(f->second - d) > slack) return false; }
                return true;
            };
            do {
                am.pos = 0;
                Walk w = walk(pre, q.ind, q.i, q.j, DX8[x], DY8[x], BIG, tol, am);
                if (w.rest > 0.3 * cz && match(w)) full = true;
            } while (am.next() && ++guard < 200);
            if (!term) {
                Amb a2(am.eps);
                guard = 0;
                do {
                    a2.pos = 0;
                    Walk w = walk(pre, q.ind, q.i, q.j, DX8[x], DY8[x], D[x], tol, a2);
                    if (w.rest <= slack && match(w)) term = true;
                } while (a2.next() && ++guard < 200);
            }
            fullok[x] = full;
            if (D[x] > 0 && !term && !full) {
                dead = true;
                Amb a3(0);
                Walk w = walk(pre, q.ind, q.i, q.j, DX8[x], DY8[x], std::min(q.excess, D[x]), tol, a3);
                std::string e, f;
                for (auto& t : w.dep) e += " " + std::to_string(t.ind) + "@(" + std::to_string(t.i) + "," + std::to_string(t.j) + "):" + std::to_string(t.h / cz);
                for (auto& [p, d] : seen) f += " " + std::to_string(p.ind) + "@(" + std::to_string(p.i) + "," + std::to_string(p.j) + "):" + std::to_string(d / cz);
                G.viol("wrong distribution", "%s: column (%d,%d) layer %d with %.3f cells in excess: direction (%d,%d) received%s, the documented walk gives%s",
                       where, q.i, q.j, q.ind, q.excess / cz, DX8[x], DY8[x], f.c_str(), e.c_str());
            }
            if (D[x] > 0 && !full) open_dirs++;
        }
        if (!left.empty() && !dead) {
            auto& p = left.begin()->first;
            clash = true;
            G.viol("off line", "%s: layer %d cell (%d,%d) received soil but does not lie on a line from (%d,%d)", where, p.ind, p.i, p.j, q.i, q.j);
        }
        int limit = q.recs;      // each parcel is moved on its own, ending in one direction
        if (!dead && !clash && open_dirs > limit)
            G.viol("spread", "%s: the excess of %d parcels was split over %d directions that still had room", where, q.recs, open_dirs);
        if (warned) {
            G.count("announced losses checked");
            for (int x = 0; x < 8; x++)
                if (!fullok[x] && !dead)
                    G.viol("needless loss", "%s: %.3f cells were dropped although direction (%d,%d) had room", where, lost / cz, DX8[x], DY8[x]);
            if (warned > q.recs) G.viol("warnings", "%s: %ld warnings for %d parcels", where, warned, q.recs);
        } else if (std::abs(got - q.excess) > slack * 4)
            G.viol("amount", "%s: %.4f cells in excess but %.4f received", where, q.excess / cz, got / cz);
    }
};

}  // namespace

static void p13_case() {
    Rng r = G.rng();
    P13 m;
    if (G.case_idx % 3 != 0) {
        for (int k = 0; k < 25 && G.viol_case < 3; k++) {
            auto p = make_squeeze(r, G.case_idx % 3 == 1 ? 1 : r.ri(2, 6));
            SO pre = p->so;
            long w0 = W.n[W_LOSS];
            ss::rng.seed(static_cast<unsigned>(r.next()));
            ss::MoveIntersectingBodySoil(&p->so, *p->grid, p->body.get(), p->tol);
            m.check("synthetic state", pre, p->so, *p->grid, *p->body, p->tol, W.n[W_LOSS] - w0);
        }
        return;
    }
    ScenOpts so;
    so.seed_soil = 1;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    H.move_body_soil_all = [&](SO* s, ss::Grid& g, ss::Body* b, float tol, Call real) {
        SO pre = *s;
        long w0 = W.n[W_LOSS];
        real();
        m.check("history", pre, *s, g, *b, tol, W.n[W_LOSS] - w0);
    };
    e.play();
    G.sample("%s, %d steps, %zu parcels at the end", sc.text().c_str(), e.step_no, e.so.body_soil_pos_.size());
}
static Reg r13({"P13", "case = one simulated history with soil on the body (1/3), or 25 calls on a synthetic state with one "
    "(1/3) or several (1/3) squeezed columns; non-trivial = a call that finds squeezed soil, counted by the digest of the state",
    p13_case, 12000, 90000});

// ---------------------------------------------------------------- P14
namespace {
struct P14 {
    void check(const char* where, const SO& pre, const SO& post, double cz, double tol) {
        double slack = 0.02 * cz + 2 * tol;
        G.count(std::string("calls in ") + where);
        if (!same_bits(pre.body_, post.body_) || !same_areas(pre, post)) G.viol("body changed", "%s: body layers or areas changed", where);
        if (!same_bits(pre.body_soil_, post.body_soil_) || !same_recs(pre.body_soil_pos_, post.body_soil_pos_))
            G.viol("body soil changed", "%s: moving terrain changed the soil on the body", where);
        int nx = NX(pre), ny = NY(pre);
        struct Src { int i, j; double h; int phases; };
        std::vector<Src> src;
        std::set<std::pair<int, int>> is;
        for (int i = pre.body_area_[0][0]; i < pre.body_area_[0][1]; i++)
            for (int j = pre.body_area_[1][0]; j < pre.body_area_[1][1]; j++) {
                CellV c = cell(pre, i, j);
                double bot = min_bottom(c);
                if (bot > 1e8 || !(c.t - tol > bot)) continue;
                int ph = 1;
                if (c.B(0) && c.B(2) && c.b[0] > c.b[2] && c.t - tol > c.b[0]) ph = 2;
                src.push_back({i, j, c.t - bot, ph});
                is.insert({i, j});
            }
        if (src.empty()) {
            if (!same_bits(pre.terrain_, post.terrain_)) G.viol("nothing to do", "%s: no terrain intersects the body but terrain moved", where);
            return;
        }
        G.count(std::string("calls with cut terrain in ") + where);
        G.count("cut cells", static_cast<long>(src.size()));
        G.nontrivial(digest(pre));
        double sum = 0;
        std::map<std::pair<int, int>, double> gain;
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++) {
                double d = static_cast<double>(post.terrain_[i][j]) - pre.terrain_[i][j];
                sum += d;
                CellV c = cell(post, i, j);
                double bot = min_bottom(c);
                if (is.count({i, j})) {
                    if (std::abs(c.t - bot) > slack)
                        G.viol("not lowered", "%s: cell (%d,%d) ends at %.4f cells from the lowest body bottom", where, i, j, (c.t - bot) / cz);
                    continue;
                }
                if (d < -1e-6) G.viol("terrain lowered", "%s: cell (%d,%d) was lowered by %.4f cells although it did not intersect the body "
                                      "in its area: %s", where, i, j, -d / cz, show(c).c_str());
                if (d > 0.3 * cz) {
                    gain[{i, j}] = d;
                    if (bot < 1e8 && c.t > bot + slack) G.viol("pushed into body", "%s: cell (%d,%d) was raised above the body's bottom", where, i, j);
                } else if (d > slack) G.viol("fraction", "%s: cell (%d,%d) rose by %.4f cells", where, i, j, d / cz);
            }
        if (std::abs(sum) > 0.02 * cz + 1e-4 * cz * src.size() + 1e-6 * nx * ny)
            G.viol("conservation", "%s: terrain total changed by %.4f cells", where, sum / cz);
        auto full = [&](int i, int j) {
            if (i < 0 || j < 0 || i >= nx || j >= ny) return true;
            CellV c = cell(post, i, j);
            double bot = min_bottom(c);
            return bot < 1e8 && c.t > bot - slack;
        };
        int reach = std::max(nx, ny);
        for (auto& [p, d] : gain) {
            bool ok = false;
            for (auto& q : src) {
                int di = p.first - q.i, dj = p.second - q.j, k = std::max(std::abs(di), std::abs(dj));
                if (!(di == 0 || dj == 0 || std::abs(di) == std::abs(dj))) continue;
                bool near = true;
                for (int m = 1; m < k && near; m++)
                    for (int x = 0; x < 8 && near; x++)
                        if (!full(q.i + m * DX8[x], q.j + m * DY8[x])) near = false;
                if (near) { ok = true; G.count("moved by " + std::to_string(std::min(k, 6)) + (k >= 6 ? " or more cells" : " cells")); break; }
            }
            if (!ok) G.viol("not nearest", "%s: cell (%d,%d) received %.3f cells although every cut cell in line with it had room closer by",
                            where, p.first, p.second, d / cz);
        }
        if (src.size() != 1) { G.count("calls with several cut cells"); return; }
        auto& q = src[0];
        double rest = q.h;
        int parts = 0;
        std::map<std::pair<int, int>, double> left = gain;
        for (int k = 1; k <= reach && rest > slack; k++)
            for (int x = 0; x < 8; x++) {
                int i = q.i + k * DX8[x], j = q.j + k * DY8[x];
                auto it = left.find({i, j});
                double d = it == left.end() ? 0 : it->second;
                if (it != left.end()) left.erase(it);
                if (d > 0 && !full(i, j)) parts++;
                rest -= d;
            }
        if (!left.empty())
            G.viol("single cell", "%s: cell (%d,%d) received soil beyond what cell (%d,%d) had to give", where, left.begin()->first.first,
                   left.begin()->first.second, q.i, q.j);
        if (parts > q.phases)
            G.viol("spread", "%s: the terrain of one cut cell was split over %d places that still have room", where, parts);
        if (std::abs(rest) > slack) G.viol("amount", "%s: cut %.4f cells, %.4f not found at its surroundings", where, q.h / cz, rest / cz);
    }
};
}  // namespace

static void p14_case() {
    Rng r = G.rng();
    P14 m;
    if (G.case_idx % 3 != 0) {
        for (int k = 0; k < 25 && G.viol_case < 3; k++) {
            int kind = G.case_idx % 3 == 1 ? 1 : r.ch(0.5) ? 0 : r.ri(2, 8);
            auto p = make_cut(r, kind, r.ch(0.2) ? 6 : 0);
            SO pre = p->so;
            ss::rng.seed(static_cast<unsigned>(r.next()));
            ss::MoveIntersectingBody(&p->so, p->tol);
            m.check("synthetic state", pre, p->so, p->cz, p->tol);
        }
        return;
    }
    ScenOpts so;
    so.seed_soil = 0.3;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    H.move_body_all = [&](SO* s, float tol, Call real) {
        SO pre = *s;
        real();
        m.check("history", pre, *s, sc.cz, tol);
    };
    e.play(nullptr, [&](Episode& ep, bool ret) {
        if (!ret) return;
        for (int i = 0; i < NX(ep.so); i++)
            for (int j = 0; j < NY(ep.so); j++) {
                CellV c = cell(ep.so, i, j);
                double bot = min_bottom(c);
                if (bot < 1e8 && c.t > bot + 2 * sc.tol + 1e-6)
                    G.viol("left intersecting", "after step %d terrain of cell (%d,%d) is %.4f cells above the body's bottom", ep.step_no, i, j, (c.t - bot) / sc.cz);
            }
    });
    G.sample("%s, %d steps", sc.text().c_str(), e.step_no);
}
static Reg r14({"P14", "case = one simulated history (1/3), or 25 calls on a synthetic state with one (1/3) or several (1/3) cut "
    "cells; non-trivial = a call that finds cut terrain, counted by the digest of the state", p14_case, 6000, 90000});
