// P07 avalanche decisions, P08 terrain avalanches, P09 body soil avalanches,
// P10 equilibrium verdict, P11 settling.
#include "monitors.hpp"
using namespace sm;

namespace {
double maxabs(const CellV& c) {
    double m = std::abs(c.t);
    for (int l = 0; l < 4; l++) m = std::max({m, std::abs(c.b[l]), std::abs(c.s[l])});
    return m;
}
double eps_of(double H) { return 1e-6 + 2e-7 * H; }
const int DI[4] = {1, -1, 0, 0}, DJ[4] = {0, 0, 1, -1};
bool in_grid(const SO& s, int i, int j) { return i >= 0 && j >= 0 && i < NX(s) && j < NY(s); }
std::string outs(const std::set<int>& s) {
    std::string o;
    for (int x : s) o += (o.empty() ? "" : " or ") + std::to_string(x);
    return o;
}
double grid_max(const SO& s) {
    double m = 0;
    for (auto& r : s.terrain_) for (float x : r) m = std::max(m, std::abs(static_cast<double>(x)));
    for (auto& l : s.body_) for (auto& r : l) for (float x : r) m = std::max(m, std::abs(static_cast<double>(x)));
    return m;
}
// Largest distance of a height from whole cells (float drift)
double off_cells(const SO& s, double cz) {
    double m = 0;
    auto f = [&](float x) { m = std::max(m, std::abs(x - cz * std::round(x / cz))); };
    for (auto& r : s.terrain_) for (float x : r) f(x);
    for (auto& l : s.body_soil_) for (auto& r : l) for (float x : r) f(x);
    for (auto& q : s.body_soil_pos_) f(q.h_soil);
    return m;
}
}  // namespace

// ---------------------------------------------------------------- P07
static void judge_terrain(const char* where, const SO& s, int ic, int jc, double h_min, double tol, int got) {
    CellV c = cell(s, ic, jc);
    double eps = eps_of(std::max(maxabs(c), std::abs(h_min)));
    auto want = all_outcomes(eps, [&](Amb& a) { return check_terrain_model(c, h_min, tol, a); });
    G.count("terrain decisions"); if (want.size() > 1) G.count("decisions too close to call");
    if (want.size() == 1) G.count("terrain decision " + std::to_string(*want.begin()));
    G.nontrivial(mix(mix(hash_bytes(&c, sizeof c), hash_bytes(&h_min, 8)), 1));
    if (!want.count(got))
        G.viol("terrain decision", "%s: minimum height %.7g, receiving cell {%s}: decided %d instead of %s", where,
               h_min, show(c).c_str(), got, outs(want).c_str());
}
static void judge_body(const char* where, const SO& s, int i, int j, int ind, int ic, int jc, double h_min, double tol,
                       int got) {
    CellV c = cell(s, ic, jc);
    double ct = s.body_[ind + 1][i][j];
    double eps = eps_of(std::max({maxabs(c), std::abs(h_min), std::abs(ct)}));
    auto want = all_outcomes(eps, [&](Amb& a) { return check_body_model(c, ct, h_min, tol, a); });
    G.count("body soil decisions"); if (want.size() > 1) G.count("decisions too close to call");
    if (want.size() == 1) G.count("body soil decision " + std::to_string(*want.begin()));
    G.nontrivial(mix(mix(mix(hash_bytes(&c, sizeof c), hash_bytes(&h_min, 8)), hash_bytes(&ct, 8)), 2));
    if (!want.count(got))
        G.viol("body soil decision", "%s: minimum height %.7g, carrying layer top %.7g, receiving cell {%s}: decided %d "
               "instead of %s", where, h_min, ct, show(c).c_str(), got, outs(want).c_str());
}
static void judge_located(const char* where, const SO& s, double dh, double tol,
                          const std::vector<std::vector<int>>& got) {
    std::set<std::pair<int, int>> g;
    for (auto& v : got) {
        if (v.size() < 2) { G.viol("selection", "%s: malformed entry", where); return; }
        if (!g.insert({v[0], v[1]}).second) G.viol("selection", "%s: cell (%d,%d) selected twice", where, v[0], v[1]);
    }
    int n = 0;
    double eps = eps_of(grid_max(s));
    for (int i = 0; i < NX(s); i++)
        for (int j = 0; j < NY(s); j++) {
            bool in = i >= s.impact_area_[0][0] && i < s.impact_area_[0][1] && j >= s.impact_area_[1][0] &&
                j < s.impact_area_[1][1];
            bool have = g.count({i, j});
            if (!in) {
                if (have) G.viol("selection", "%s: cell (%d,%d) outside of the active area was selected", where, i, j);
                continue;
            }
            double low = 1e9;
            for (int d = 0; d < 4; d++) low = std::min(low, static_cast<double>(s.terrain_[i + DI[d]][j + DJ[d]]));
            double slack = s.terrain_[i][j] - dh - tol - low;     // > 0: unstable
            if (slack > eps) n++;
            if ((slack > eps && !have) || (slack < -eps && have))
                G.viol("selection", "%s: cell (%d,%d) height %.7g lowest neighbour %.7g repose height %.7g was %sselected",
                       where, i, j, s.terrain_[i][j], low, dh, have ? "" : "not ");
        }
    G.count("selections"); G.count("cells selected", n);
}
static void p07_case() {
    Rng r = G.rng();
    H.check_terrain = [&](SO* s, int ic, int jc, float h, float tol, int& ret, Call real) {
        real(); judge_terrain("in a run", *s, ic, jc, h, tol, ret); };
    H.check_body = [&](SO* s, int i, int j, int ind, int ic, int jc, float h, float tol, int& ret, Call real) {
        real(); judge_body("in a run", *s, i, j, ind, ic, jc, h, tol, ret); };
    H.locate_unstable = [&](SO* s, float dh, float tol, std::vector<std::vector<int>>& ret, Call real) {
        real(); judge_located("in a run", *s, dh, tol, ret); };
    if (G.case_idx % 4 != 0) {
        PatchOpts o;
        if (r.ch(0.15)) o.p_frac = 0.4;
        o.nmin = 4; o.nmax = 8; o.trange = r.ri(1, 8); o.p_upper_pen = 0.1;
        if (r.ch(0.3)) { o.p_none = 0.1; o.p_both = 0.7; }
        auto p = make_patch(r, o);
        SO& s = p->so;
        if (r.ch(0.3)) p->tol = fit_tol(p->cxy, p->cz, 2e-5f);
        // every cell as receiver, at minimum heights around every surface in it
        for (int i = 0; i < NX(s); i++)
            for (int j = 0; j < NY(s); j++) {
                CellV c = cell(s, i, j);
                std::vector<double> ref = {c.t};
                for (int l = 0; l < 4; l++) { if (c.B(l & 2)) ref.push_back(c.b[l]); if (c.S(l & 2)) ref.push_back(c.s[l]); }
                for (int k = 0; k < 4; k++) {
                    double h = r.pick(ref) + r.ri(-2, 4) * p->cz;
                    if (r.ch(0.2)) h += r.uf(-0.5, 0.5) * p->cz;
                    float hf = static_cast<float>(h);
                    // wrapped calls are judged by the hooks; judge here as well for builds without hooks
                    int got = ss::CheckUnstableTerrainCell(&s, i, j, hf, p->tol);
                    judge_terrain("direct", s, i, j, hf, p->tol, got);
                    int d = r.ri(0, 3), ci = i + DI[d], cj = j + DJ[d];
                    if (!in_grid(s, ci, cj)) continue;
                    int ind = 2 * r.ri(0, 1);
                    if (!has_body(s, ind, ci, cj)) ind = 2 - ind;
                    if (!has_body(s, ind, ci, cj)) continue;
                    if (r.ch(0.6)) {     // carriers at chosen heights
                        float f = static_cast<float>(r.pick(ref) + r.ri(-2, 2) * p->cz);
                        if (f != 0) { s.body_[ind + 1][ci][cj] = f; }
                    }
                    got = ss::CheckUnstableBodyCell(&s, ci, cj, ind, i, j, hf, p->tol);
                    judge_body("direct", s, ci, cj, ind, i, j, hf, p->tol, got);
                }
            }
        // selection
        for (int k = 0; k < 6; k++) {
            int a = r.ri(1, NX(s) - 2), b = r.ri(1, NY(s) - 2);
            s.impact_area_[0][0] = a; s.impact_area_[0][1] = r.ri(a, NX(s) - 1);
            s.impact_area_[1][0] = b; s.impact_area_[1][1] = r.ri(b, NY(s) - 1);
            if (r.ch(0.4)) {
                s.impact_area_[0][0] = s.impact_area_[1][0] = 1;
                s.impact_area_[0][1] = NX(s) - 1; s.impact_area_[1][1] = NY(s) - 1;
            }
            float dh = static_cast<float>(p->cz * r.ri(0, 9));
            SO before = s;
            auto got = ss::LocateUnstableTerrainCell(&s, dh, p->tol);
            judge_located("direct", s, dh, p->tol, got);
            if (!same_all(before, s)) G.viol("selection", "the selection modified the state");
        }
        return;
    }
    ScenOpts so;
    so.seed_soil = 0.9; so.nmax = 14; so.steps_max = 20; so.allow_zero_repose = true;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    e.play();
    G.sample("%s, %d steps, decisions so far: terrain %ld body soil %ld", sc.text().c_str(), e.step_no,
             G.cnt["terrain decisions"], G.cnt["body soil decisions"]);
}
static Reg r07({"P07", "case = one synthetic state whose every cell is judged as a receiver at several heights (3/4) or one "
    "simulated history with every decision judged (1/4); non-trivial = a decision, counted by the receiving cell's "
    "contents, the limit height and the carrier", p07_case, 2400, 60000});

// ---------------------------------------------------------------- P08, P09
namespace {
// Compares everything outside the source cell and the destination cell
bool elsewhere_same(const SO& a, const SO& b, int i, int j, int ic, int jc) {
    for (int x = 0; x < NX(a); x++)
        for (int y = 0; y < NY(a); y++) {
            if ((x == i && y == j) || (x == ic && y == jc)) continue;
            if (a.terrain_[x][y] != b.terrain_[x][y]) return false;
            for (int l = 0; l < 4; l++) if (a.body_soil_[l][x][y] != b.body_soil_[l][x][y]) return false;
        }
    return same_bits(a.body_, b.body_);
}
// What changed in the receiving cell: the amount gained, or a complaint
const char* received(const CellV& a, const CellV& b, const Dest& d, double m, double tol) {
    for (int l = 0; l < 4; l++) if (a.b[l] != b.b[l]) return "a body layer changed";
    if (d.layer < 0) {
        if (std::abs(b.t - a.t - m) > tol) return "the terrain did not receive the amount given";
        for (int l = 0; l < 4; l++) if (a.s[l] != b.s[l]) return "body soil changed although terrain was to receive";
        return nullptr;
    }
    if (a.t != b.t) return "terrain changed although a body layer was to receive";
    int o = 2 - d.layer;
    if (a.s[o] != b.s[o] || a.s[o + 1] != b.s[o + 1]) return "the other layer's soil changed";
    if (std::abs(b.s[d.layer] - (a.S(d.layer) ? a.s[d.layer] : a.b[d.layer + 1])) > tol)
        return "the receiving soil does not rest on its layer";
    if (std::abs(b.s[d.layer + 1] - d.top - m) > tol) return "the layer did not receive the amount given";
    return nullptr;
}
// The amount must be m = min(limit, room) or bring the slope into (dh - 2cz, dh]
const char* amount_ok(double src, double dst, double m, double limit, double room, double dh, double cz, double tol) {
    if (m < -tol) return "a negative amount was moved";
    if (m > limit + tol) return "more was moved than the parcel holds";
    if (m > room + tol) return "more was moved than there is room for";
    double slope = (src - m) - (dst + m);
    // strict at the lower end unless the heights have drifted off whole cells
    auto off = [&](double x) { return std::abs(x - cz * std::round(x / cz)) > 5e-6 + 1e-6 * std::abs(x); };
    double low = dh - 2 * cz + (off(src) || off(dst) ? -0.1 * cz : tol);
    if (slope > low && slope <= dh + tol) return nullptr;
    if (slope <= low) return "too much was moved";
    // slope still too steep: only when limited
    if (m >= limit - tol || m >= room - tol) return nullptr;
    return "too little was moved";
}
std::multiset<std::vector<float>> rec_set(const std::vector<Rec>& v) {
    std::multiset<std::vector<float>> s;
    for (auto& r : v) s.insert({float(r.ind), float(r.ii), float(r.jj), r.x_b, r.y_b, r.z_b, r.h_soil});
    return s;
}
}  // namespace

static void judge_terrain_move(const char* where, const SO& a, const SO& b, int st, double dh, int i, int j, int ic,
                               int jc, double cz) {
    double tol = 0.02 * cz + 2e-6;
    CellV sa = cell(a, i, j), sb = cell(b, i, j), da = cell(a, ic, jc), db = cell(b, ic, jc);
    Dest d = dest_of_status(da, st);
    double m = sa.t - sb.t;
    const char* bad = nullptr;
    if (!elsewhere_same(a, b, i, j, ic, jc)) bad = "a cell other than the two was changed";
    for (int l = 0; l < 4 && !bad; l++) if (sa.s[l] != sb.s[l]) bad = "body soil changed in the unstable cell";
    if (!bad) bad = received(da, db, d, m, tol);
    if (!bad) bad = amount_ok(sa.t, d.top, m, 1e9, d.room, dh, cz, tol);
    if (!bad) {
        auto x = rec_set(a.body_soil_pos_), y = rec_set(b.body_soil_pos_);
        for (auto& v : x) {
            auto it = y.find(v);
            if (it == y.end()) { bad = "an existing parcel was altered"; break; }
            y.erase(it);
        }
        if (!bad && d.layer < 0 && !y.empty()) bad = "a parcel was created for soil on the terrain";
        if (!bad && d.layer >= 0) {
            if (y.size() != 1) bad = "the moved soil did not become one parcel";
            else {
                auto& v = *y.begin();
                if (v[0] != d.layer || v[1] != ic || v[2] != jc || std::abs(v[6] - m) > tol) bad = "wrong new parcel";
            }
        }
    }
    G.count("terrain avalanches"); G.count("terrain avalanche " + std::to_string(st));
    if (m > tol && m >= d.room - tol) G.count("avalanches limited by the room");
    double key[4] = {sa.t, d.top, d.room, dh};
    G.nontrivial(mix(hash_bytes(key, sizeof key), static_cast<uint64_t>(st)));
    if (bad)
        G.viol("terrain avalanche", "%s: %s: decision %d repose height %.6g cell height %.6g from (%d,%d) {%s}->{%s} to "
               "(%d,%d) {%s}->{%s}", where, bad, st, dh, cz, i, j, show(sa).c_str(), show(sb).c_str(), ic, jc,
               show(da).c_str(), show(db).c_str());
}

// A pass over the terrain: isolated unstable columns end stable towards every neighbour that did not change
static void judge_terrain_pass(const char* where, const SO& a, const SO& b, double dh, double cz, double tolp) {
    std::vector<std::pair<int, int>> sel;
    std::vector<char> mark(static_cast<size_t>(NX(a) * NY(a)), 0);
    double eps = eps_of(grid_max(a));
    for (int i = a.impact_area_[0][0]; i < a.impact_area_[0][1]; i++)
        for (int j = a.impact_area_[1][0]; j < a.impact_area_[1][1]; j++) {
            double low = 1e9;
            for (int d = 0; d < 4; d++) low = std::min(low, static_cast<double>(a.terrain_[i + DI[d]][j + DJ[d]]));
            if (a.terrain_[i][j] - dh - tolp - low > -eps) { sel.push_back({i, j}); mark[i * NY(a) + j] = 1; }
        }
    G.count("terrain passes");
    bool any = false;
    for (auto [i, j] : sel) {
        bool alone = true;
        for (int x = -2; x <= 2 && alone; x++)
            for (int y = -2; y <= 2; y++) {
                if ((!x && !y) || std::abs(x) + std::abs(y) > 2 || !in_grid(a, i + x, j + y)) continue;
                if (mark[(i + x) * NY(a) + j + y]) { alone = false; break; }
            }
        for (int d = 0; d < 4; d++) {
            int ic = i + DI[d], jc = j + DJ[d];
            CellV da = cell(a, ic, jc), db = cell(b, ic, jc);
            bool same = !memcmp(&da, &db, sizeof da);
            if (!alone) continue;
            any = true;
            // decision towards this neighbour with the final column
            auto w = all_outcomes(0.3 * cz, [&](Amb& am) {
                return check_terrain_model(db, b.terrain_[i][j] - dh, tolp, am); });
            if (same && !w.count(0))
                G.viol("pass left a column", "%s: after the pass column (%d,%d) at %.6g is still unstable towards (%d,%d) {%s} "
                       "which the pass did not touch, repose height %.6g", where, i, j, b.terrain_[i][j], ic, jc,
                       show(db).c_str(), dh);
            if (!same && da.t != db.t && !da.B(0) && !da.B(2)) {
                // free terrain that received: the slope must not be reversed beyond the repose height
                double sl = static_cast<double>(b.terrain_[i][j]) - b.terrain_[ic][jc];
                if (sl > dh + 0.3 * cz)
                    G.viol("pass left a column", "%s: slope %.3f cells left between (%d,%d) and free (%d,%d), repose %.3f",
                           where, sl / cz, i, j, ic, jc, dh / cz);
            }
        }
        if (alone) G.count("isolated unstable columns followed through a pass");
    }
    if (any) G.nontrivial(mix(digest(a), 8));
}

static void p08_case() {
    Rng r = G.rng();
    H.relax_terrain_cell = [&](SO* s, int st, float dh, int i, int j, int ic, int jc, ss::Grid& g, ss::Body*, float,
                               Call real) {
        SO a = *s; real();
        judge_terrain_move("in a run", a, *s, st, dh, i, j, ic, jc, g.cell_size_z_); };
    H.relax_terrain = [&](SO* s, ss::Grid& g, ss::Body*, ss::SimParam& p, float tol, Call real) {
        SO a = *s; real();
        judge_terrain_pass("in a run", a, *s, dh_max_of(g, p), g.cell_size_z_, tol); };
    if (G.case_idx % 4 != 0) {
        PatchOpts o;
        if (r.ch(0.15)) o.p_frac = 0.4;
        o.nmin = 3; o.nmax = 6; o.trange = r.ri(1, 9);
        if (r.ch(0.3)) { o.p_none = 0.1; o.p_both = 0.7; }
        bool sparse = r.ch(0.4);
        for (int k = 0; k < 10; k++) {
            auto p = make_patch(r, o);
            SO& s = p->so;
            auto hold = H.relax_terrain_cell;
            H.relax_terrain_cell = nullptr;
            for (int n = 0; n < 12; n++) {
                int i = r.ri(0, NX(s) - 1), j = r.ri(0, NY(s) - 1), d = r.ri(0, 3), ic = i + DI[d], jc = j + DJ[d];
                if (!in_grid(s, ic, jc)) continue;
                CellV c = cell(s, ic, jc);
                float dh = static_cast<float>(p->cz * r.ri(0, 6));
                Amb am(eps_of(maxabs(c)));
                Dest t = terrain_dest(c, p->tol, am);
                SO a = s;
                if (r.ch(0.7)) a.terrain_[i][j] = static_cast<float>(
                    p->cz * std::round((t.top + dh) / p->cz) + p->cz * r.ri(1, 12));
                if (has_body(a, 0, i, j) || has_body(a, 2, i, j)) {
                    for (int l = 0; l < 4; l++) a.body_[l][i][j] = a.body_soil_[l][i][j] = 0;
                    auto& v = a.body_soil_pos_;
                    v.erase(std::remove_if(v.begin(), v.end(), [&](const Rec& q) { return q.ii == i && q.jj == j; }), v.end());
                }
                Amb am2(1e-9);
                int st = check_terrain_model(c, a.terrain_[i][j] - dh, p->tol, am2);
                if (!st) continue;
                SO b = a;
                ss::RelaxUnstableTerrainCell(&b, st, dh, i, j, ic, jc, *p->grid, p->body.get(), p->tol);
                judge_terrain_move("direct", a, b, st, dh, i, j, ic, jc, p->cz);
            }
            H.relax_terrain_cell = hold;
        }
        if (r.ch(0.04)) {                  // a pass over hundreds of separate columns of a wide grid
            PatchOpts q;
            q.nmin = q.nmax = 32; q.trange = 0; q.p_none = 1; q.p_both = 0;
            auto p = make_patch(r, q);
            SO& s = p->so;
            for (int i = 2; i < NX(s) - 2; i += 3)
                for (int j = 2; j < NY(s) - 2; j += 3)
                    if (r.ch(0.98)) s.terrain_[i][j] += static_cast<float>(p->cz * r.ri(8, 30));
            ss::SimParam sp(static_cast<float>(r.uf(0, 1)), 10, r.ri(2, 5));
            ss::rng.seed(static_cast<unsigned>(r.next()));
            SO a = s;
            ss::RelaxTerrain(&s, *p->grid, p->body.get(), sp, p->tol);
            judge_terrain_pass("wide", a, s, dh_max_of(*p->grid, sp), p->cz, p->tol);
            G.count("passes over hundreds of columns");
        }
        // passes over a few separate columns
        for (int k = 0; k < 6; k++) {
            PatchOpts q = o;
            q.nmin = 5; q.nmax = 9; q.trange = sparse ? 0 : r.ri(0, 3);
            auto p = make_patch(r, q);
            SO& s = p->so;
            int n = r.ri(1, 5);
            for (int x = 0; x < n; x++)
                s.terrain_[r.ri(1, NX(s) - 2)][r.ri(1, NY(s) - 2)] += static_cast<float>(p->cz * r.ri(1, 25));
            // terrain never above a body
            for (int i = 0; i < NX(s); i++)
                for (int j = 0; j < NY(s); j++) {
                    CellV c = cell(s, i, j);
                    if (c.t <= min_bottom(c)) continue;
                    for (int l = 0; l < 4; l++) s.body_[l][i][j] = s.body_soil_[l][i][j] = 0;
                    auto& v = s.body_soil_pos_;
                    v.erase(std::remove_if(v.begin(), v.end(), [&](const Rec& z) { return z.ii == i && z.jj == j; }), v.end());
                }
            ss::SimParam sp(static_cast<float>(r.uf(0, 1.3)), 10, r.ri(2, 5));
            ss::rng.seed(static_cast<unsigned>(r.next()));
            SO a = s;
            ss::RelaxTerrain(&s, *p->grid, p->body.get(), sp, p->tol);
            judge_terrain_pass("direct", a, s, dh_max_of(*p->grid, sp), p->cz, p->tol);
        }
        return;
    }
    ScenOpts so;
    so.nmax = 13; so.steps_max = 16; so.seed_soil = 0.7;
    so.iters = r.ch(0.5) ? 6 : -1;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    e.play();
    G.sample("%s, %d steps, terrain avalanches so far: %ld", sc.text().c_str(), e.step_no, G.cnt["terrain avalanches"]);
}
static Reg r08({"P08", "case = synthetic states with single avalanches and whole passes (3/4) or one simulated history with "
    "every avalanche and pass judged (1/4); non-trivial = an avalanche, counted by heights, room, repose height and "
    "decision, or a pass over isolated unstable columns", p08_case, 1600, 40000});

static void judge_body_move(const char* where, const SO& a, const SO& b, int st, double dh, int nn, int i, int j, int ind,
                            int ic, int jc, double cz, const std::vector<Rec>& qa, const std::vector<Rec>& qb) {
    double tol = 0.02 * cz + 2e-6;
    CellV sa = cell(a, i, j), sb = cell(b, i, j), da = cell(a, ic, jc), db = cell(b, ic, jc);
    if (!sa.S(ind)) { G.count("moves from an emptied column"); }
    Dest d = dest_of_status(da, st);
    const Rec &ra = a.body_soil_pos_[nn], &rb = b.body_soil_pos_[nn];
    double m = static_cast<double>(ra.h_soil) - rb.h_soil;
    double have = ra.h_soil;
    const char* bad = nullptr;
    if (a.body_soil_pos_.size() != b.body_soil_pos_.size()) bad = "the parcel list changed length";
    for (size_t k = 0; k < a.body_soil_pos_.size() && !bad; k++) {
        Rec x = a.body_soil_pos_[k], y = b.body_soil_pos_[k];
        if (static_cast<int>(k) == nn) x.h_soil = y.h_soil = 0;
        if (!same_rec(x, y)) bad = "another parcel, or a parcel's place, was altered";
    }
    if (!bad && !elsewhere_same(a, b, i, j, ic, jc)) bad = "a cell other than the two was changed";
    if (!bad && sa.t != sb.t) bad = "terrain changed under the source";
    for (int l = 0; l < 4 && !bad; l++) if ((l & 2) != ind && sa.s[l] != sb.s[l]) bad = "the source cell's other layer changed";
    if (!bad && sa.S(ind)) {
        double base = sa.s[ind], left = sa.s[ind + 1] - m;
        if (left - base < tol) {
            if (left - base < 0.5 * 1e-5 && sb.S(ind)) bad = "an emptied column did not disappear";
            if (!sb.S(ind)) { if (rb.h_soil != 0) bad = "an emptied column left a parcel"; G.count("columns emptied"); }
        }
        if (!bad && sb.S(ind)) {
            if (sb.s[ind] != sa.s[ind]) bad = "the source column's bottom changed";
            else if (std::abs(sb.s[ind + 1] - left) > tol) bad = "column and parcel lost different amounts";
        }
        if (!bad && !sb.S(ind) && left - base > tol) bad = "the source column disappeared with soil left in it";
    }
    if (!bad) bad = received(da, db, d, m, tol);
    if (!bad && sa.S(ind)) bad = amount_ok(sa.s[ind + 1], d.top, m, have, d.room, dh, cz, tol);
    if (!bad) {
        if (qb.size() < qa.size()) bad = "new parcels were lost";
        for (size_t k = 0; k < qa.size() && !bad; k++) if (!same_rec(qa[k], qb[k])) bad = "a queued parcel was altered";
        double got = 0;
        int cnt = 0;
        for (size_t k = qa.size(); k < qb.size() && !bad; k++) {
            const Rec& x = qb[k];
            if (x.ind != d.layer || x.ii != ic || x.jj != jc) bad = "a parcel was created elsewhere";
            got += x.h_soil; cnt++;
        }
        if (!bad && d.layer < 0 && cnt) bad = "a parcel was created for soil on the terrain";
        if (!bad && d.layer >= 0 && (cnt > 1 || std::abs(got - m) > tol)) bad = "the moved soil did not become one parcel";
    }
    G.count("body soil avalanches"); G.count("body soil avalanche " + std::to_string(st));
    if (m > tol && m >= d.room - tol) G.count("avalanches limited by the room");
    if (m > tol && m >= have - tol) G.count("avalanches limited by the parcel");
    double key[6] = {sa.s[ind], sa.s[ind + 1], d.top, d.room, dh, have};
    G.nontrivial(mix(hash_bytes(key, sizeof key), static_cast<uint64_t>(st)));
    if (bad)
        G.viol("body soil avalanche", "%s: %s: decision %d repose height %.6g cell height %.6g layer %d parcel %.6g->%.6g "
               "from (%d,%d) {%s}->{%s} to (%d,%d) {%s}->{%s}", where, bad, st, dh, cz, ind, ra.h_soil, rb.h_soil, i, j,
               show(sa).c_str(), show(sb).c_str(), ic, jc, show(da).c_str(), show(db).c_str());
}
static void judge_body_pass(const char* where, const SO& a, const SO& b, double dh, double cz, double tolp) {
    G.count("body soil passes");
    std::map<std::pair<int, int>, int> at;
    for (auto& q : a.body_soil_pos_) at[{q.ii, q.jj}]++;
    if (b.body_soil_pos_.size() < a.body_soil_pos_.size()) { G.viol("body soil pass", "%s: parcels were removed", where); return; }
    bool drifted = off_cells(a, cz) > 0.3 * tolp;
    for (size_t n = a.body_soil_pos_.size(); n < b.body_soil_pos_.size(); n++) {
        const Rec& x = b.body_soil_pos_[n];
        G.count("parcels created by passes");
        if (!(x.h_soil > 0.5 * tolp) && !drifted)
            G.viol("empty parcel", "%s: the pass created a parcel of %.3g on layer %d of (%d,%d)", where, x.h_soil, x.ind, x.ii, x.jj);
    }
    for (int i = 0; i < NX(a); i++)
        for (int j = 0; j < NY(a); j++)
            for (int l = 0; l < 4; l += 2)
                if (!drifted && has_soil(b, l, i, j) && !has_soil(a, l, i, j) && !(col(b, l, i, j) > 0))
                    G.viol("empty column", "%s: the pass created a soil column of no height on layer %d of (%d,%d)", where, l, i, j);
    for (size_t n = 0; n < a.body_soil_pos_.size(); n++) {
        const Rec &x = a.body_soil_pos_[n], &y = b.body_soil_pos_[n];
        int i = x.ii, j = x.jj;
        if (x.h_soil < 0.1 * cz) continue;
        bool alone = true;
        for (int p = -2; p <= 2 && alone; p++)
            for (int q = -2; q <= 2; q++) {
                if (std::abs(p) + std::abs(q) > 2) continue;
                auto it = at.find({i + p, j + q});
                if (it != at.end() && it->second > (!p && !q ? 1 : 0)) { alone = false; break; }
            }
        if (!alone) continue;
        G.count("isolated parcels followed through a pass");
        G.nontrivial(mix(digest(a), n + 9));
        if (y.ind != x.ind || y.ii != i || y.jj != j || y.h_soil < 0.1 * cz) continue;
        for (int d = 0; d < 4; d++) {
            int ic = i + DI[d], jc = j + DJ[d];
            if (!in_grid(a, ic, jc)) continue;
            CellV da = cell(a, ic, jc), db = cell(b, ic, jc);
            if (memcmp(&da, &db, sizeof da)) continue;
            auto w = all_outcomes(0.3 * cz, [&](Amb& am) {
                return check_body_model(db, b.body_[x.ind + 1][i][j], b.body_soil_[x.ind + 1][i][j] - dh, tolp, am); });
            if (!w.count(0))
                G.viol("pass left a parcel", "%s: after the pass the soil on layer %d of (%d,%d) up to %.6g is still unstable "
                       "towards (%d,%d) {%s}, which the pass did not touch, repose height %.6g", where, x.ind, i, j,
                       b.body_soil_[x.ind + 1][i][j], ic, jc, show(db).c_str(), dh);
        }
    }
}
static void drop_records(SO& s, const std::function<bool(const Rec&)>& kill) {
    auto& v = s.body_soil_pos_;
    for (auto& q : v) if (kill(q)) { s.body_soil_[q.ind][q.ii][q.jj] = s.body_soil_[q.ind + 1][q.ii][q.jj] = 0; }
    v.erase(std::remove_if(v.begin(), v.end(), kill), v.end());
}
static void p09_case() {
    Rng r = G.rng();
    H.relax_body_cell = [&](SO* s, int st, std::vector<Rec>* q, float dh, int nn, int i, int j, int ind, int ic, int jc,
                            ss::Grid& g, ss::Body*, float, Call real) {
        SO a = *s; auto qa = *q;
        real();
        judge_body_move("in a run", a, *s, st, dh, nn, i, j, ind, ic, jc, g.cell_size_z_, qa, *q); };
    H.relax_body_soil = [&](SO* s, ss::Grid& g, ss::Body*, ss::SimParam& p, float tol, Call real) {
        SO a = *s; real();
        judge_body_pass("in a run", a, *s, dh_max_of(g, p), g.cell_size_z_, tol); };
    if (G.case_idx % 4 != 0) {
        auto hold = H.relax_body_cell;
        PatchOpts o;
        o.nmin = 3; o.nmax = 5; o.trange = r.ri(1, 9); o.p_none = 0.2; o.p_both = r.ch(0.5) ? 0.7 : 0.4;
        for (int k = 0; k < 10; k++) {
            auto p = make_patch(r, o);
            SO& s = p->so;
            if (s.body_soil_pos_.empty()) continue;
            H.relax_body_cell = nullptr;
            for (int n = 0; n < 14; n++) {
                int nn = r.ri(0, static_cast<int>(s.body_soil_pos_.size()) - 1);
                const Rec q = s.body_soil_pos_[nn];
                int d = r.ri(0, 3), i = q.ii, j = q.jj, ic = i + DI[d], jc = j + DJ[d];
                if (!in_grid(s, ic, jc)) continue;
                CellV c = cell(s, ic, jc);
                float dh = static_cast<float>(p->cz * r.ri(0, 6));
                SO a = s;
                // the source cell: sometimes lifted so that the soil towers over its neighbour
                int up = r.ch(0.5) ? 0 : r.ri(-6, 12);
                float u = static_cast<float>(up * p->cz);
                for (int l = 0; l < 4; l += 2) {
                    if (a.body_[l][i][j] != 0 || a.body_[l + 1][i][j] != 0) { a.body_[l][i][j] += u; a.body_[l + 1][i][j] += u; }
                    if (a.body_soil_[l][i][j] != 0 || a.body_soil_[l + 1][i][j] != 0) {
                        a.body_soil_[l][i][j] += u; a.body_soil_[l + 1][i][j] += u; }
                }
                if (!has_soil(a, q.ind, i, j)) continue;
                Amb am(1e-9);
                int st = check_body_model(c, a.body_[q.ind + 1][i][j], a.body_soil_[q.ind + 1][i][j] - dh, p->tol, am);
                if (!st) continue;
                SO b = a;
                std::vector<Rec> queue;
                if (r.ch(0.3)) queue.push_back(Rec{0, 1, 1, 0.1f, 0.2f, 0.3f, 0.4f});
                auto qa = queue;
                ss::RelaxUnstableBodyCell(&b, st, &queue, dh, nn, i, j, q.ind, ic, jc, *p->grid, p->body.get(), p->tol);
                judge_body_move("direct", a, b, st, dh, nn, i, j, q.ind, ic, jc, p->cz, qa, queue);
            }
            H.relax_body_cell = hold;
        }
        for (int k = 0; k < 6; k++) {
            PatchOpts q = o;
            q.nmin = 5; q.nmax = 9; q.p_soil = r.ch(0.5) ? 0.1 : 0.6; q.border_free = true;
            auto p = make_patch(r, q);
            SO& s = p->so;
            double keep = r.uf(0.02, 1);
            if (keep < 0.6) {
                std::set<std::tuple<int, int, int>> kill;
                for (auto& z : s.body_soil_pos_) if (!r.ch(keep)) kill.insert({z.ind, z.ii, z.jj});
                drop_records(s, [&](const Rec& z) { return kill.count({z.ind, z.ii, z.jj}) > 0; });
            }
            if (r.ch(0.15)) {              // a long list: used-up parcels of one cell before and between the others
                std::vector<Rec> v(static_cast<size_t>(r.ri(50, 600)), Rec{0, 1, 1, 0.1f, 0.1f, 0.1f, 0.0f});
                for (auto& z : s.body_soil_pos_) v.insert(v.begin() + r.ri(0, static_cast<int>(v.size())), z);
                s.body_soil_pos_ = v;
                G.count("passes over long lists of parcels");
            }
            ss::SimParam sp(static_cast<float>(r.uf(0, 1.3)), 10, r.ri(2, 5));
            ss::rng.seed(static_cast<unsigned>(r.next()));
            SO a = s;
            ss::RelaxBodySoil(&s, *p->grid, p->body.get(), sp, p->tol);
            judge_body_pass("direct", a, s, dh_max_of(*p->grid, sp), p->cz, p->tol);
        }
        return;
    }
    ScenOpts so;
    so.nmax = 13; so.steps_max = 18; so.seed_soil = 1.0;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    e.play();
    G.sample("%s, %d steps, body soil avalanches so far: %ld", sc.text().c_str(), e.step_no, G.cnt["body soil avalanches"]);
}
static Reg r09({"P09", "case = synthetic states with single avalanches and whole passes (3/4) or one simulated history with "
    "every avalanche and pass judged (1/4); non-trivial = an avalanche, counted by heights, parcel, room, repose height "
    "and decision, or an isolated parcel followed through a pass", p09_case, 8000, 100000});

// ---------------------------------------------------------------- P10
static std::string unstable_somewhere(const SO& s, double dh, double cz, double tol, bool whole, bool parcels = true) {
    char buf[700];
    int a = whole ? 1 : s.impact_area_[0][0], b = whole ? NX(s) - 1 : s.impact_area_[0][1];
    int c = whole ? 1 : s.impact_area_[1][0], d = whole ? NY(s) - 1 : s.impact_area_[1][1];
    for (int i = a; i < b; i++)
        for (int j = c; j < d; j++)
            for (int k = 0; k < 4; k++) {
                int x = i + DI[k], y = j + DJ[k];
                CellV v = cell(s, x, y);
                if (!(s.terrain_[i][j] - v.t > dh + 0.5 * cz)) continue;
                auto w = all_outcomes(0.5 * cz, [&](Amb& am) {
                    return check_terrain_model(v, s.terrain_[i][j] - dh, tol, am); });
                if (!w.count(0)) {
                    snprintf(buf, sizeof buf, "terrain at (%d,%d) height %.6g would avalanche to (%d,%d) {%s}, repose height "
                             "%.6g", i, j, s.terrain_[i][j], x, y, show(v).c_str(), dh);
                    return buf;
                }
            }
    if (!parcels) return "";
    for (auto& q : s.body_soil_pos_) {
        if (q.h_soil < 0.5 * cz || !in_grid(s, q.ii, q.jj) || !has_soil(s, q.ind, q.ii, q.jj)) continue;
        for (int k = 0; k < 4; k++) {
            int x = q.ii + DI[k], y = q.jj + DJ[k];
            if (!in_grid(s, x, y)) continue;
            CellV v = cell(s, x, y);
            auto w = all_outcomes(0.5 * cz, [&](Amb& am) {
                return check_body_model(v, s.body_[q.ind + 1][q.ii][q.jj], s.body_soil_[q.ind + 1][q.ii][q.jj] - dh, tol, am); });
            if (!w.count(0)) {
                snprintf(buf, sizeof buf, "soil on layer %d of (%d,%d) {%s} would avalanche to (%d,%d) {%s}, repose height %.6g",
                         q.ind, q.ii, q.jj, show(cell(s, q.ii, q.jj)).c_str(), x, y, show(v).c_str(), dh);
                return buf;
            }
        }
    }
    return "";
}
static uint64_t heights(const SO& s) {
    uint64_t h = 7;
    for (auto& r : s.terrain_) h = hash_bytes(r.data(), r.size() * 4, h);
    for (auto& l : s.body_soil_) for (auto& r : l) h = hash_bytes(r.data(), r.size() * 4, h);
    return h;
}
// Known finding: on terrain without any body the rounding noise of the heights of the outermost cells exceeds the
// tolerance, so that columns stay reported as unstable while nothing moves any more.
static void p10_pinned() {
    int hits = 0;
    for (unsigned k : {3u, 6u, 18u, 30u}) {
        ss::Grid g(8, 8, 12, 1.0f, 0.2f);
        ss::Bucket body(VF{0, 0, 0}, VF{0, 0, 0}, VF{0, 0, -0.5f}, VF{0.7f, 0, -0.5f}, 0.5f);
        body.ori_ = {1, 0, 0, 0};
        ss::SimParam sp(static_cast<float>(std::atan(0.2)), 10, 3);
        SO s(g);
        for (int i = 0; i < NX(s); i++) for (int j = 0; j < NY(s); j++)
            s.terrain_[i][j] = g.cell_size_z_ * static_cast<float>(i < NX(s) / 2 ? 40 : 0);
        ss::rng.seed(k);
        for (int n = 0; n < 1000; n++) {
            SO a = s;
            ss::RelaxTerrain(&s, g, &body, sp, 1e-5f);
            if (s.equilibrium_) break;
            if (!same_soil(a, s)) continue;
            if (!hits++) G.viol("pinned:tolerance-livelock", "a slope of 40 cells on a 17 x 17 grid (cells of 1 m and 0.2 m, seed %u): round %d "
                "moves nothing but equilibrium is not reported (heights are off whole cells by %.3g m)", k, n, off_cells(s, g.cell_size_z_));
            break;
        }
    }
    G.count("pinned slopes relaxed", 4);
}
// A tall pile below a body in the air, in heights without rounding: needs tens to hundreds of rounds.
static void p10_pile(Rng& r) {
    float cz = 0.125f, cxy = 0.125f * static_cast<float>(1 << r.ri(0, 3));
    int n = r.ri(10, 26), w = r.ri(1, 3), k = r.ri(1, 3);
    ss::Grid g(n * cxy, n * cxy, 400 * cz, cxy, cz);
    ss::Bucket body(VF{0, 0, 0}, VF{0, 0, 0}, VF{0, 0, -2 * cxy}, VF{3 * cxy, 0, -2 * cxy}, 3 * cxy);
    bool small = r.ch(0.4);
    ss::SimParam sp(static_cast<float>(std::atan((k + 0.2) * cz / cxy)), small ? r.ri(1, 150) : 6000, r.ri(3, 6));
    SO s(g);
    int c = n + r.ri(-2, 2), d = n + r.ri(-2, 2);
    float h = cz * static_cast<float>(r.ri(20, 250));
    for (int i = c - w; i <= c + w; i++) for (int j = d - w; j <= d + w; j++) s.terrain_[i][j] = h;
    ss::SoilDynamics sim;
    VF pos{0, 0, 320 * cz}, ori{1, 0, 0, 0};
    int rounds = 0;
    H.relax_terrain = [&](SO*, ss::Grid&, ss::Body*, ss::SimParam&, float, Call real) { rounds++; real(); };
    ss::rng.seed(static_cast<unsigned>(r.next()));
    // the relaxation starts from the area below the body, which follows the pile
    s.relax_area_[0][0] = s.relax_area_[1][0] = 1; s.relax_area_[0][1] = s.relax_area_[1][1] = 2 * n;
    sim.Step(&s, pos, ori, g, &body, sp, 1e-5f);
    bool seen = H.hits["RelaxTerrain"] > 0;
    G.count("tall piles"); G.count("rounds on tall piles", rounds);
    G.nontrivial(digest(s));
    G.context = "tall pile";
    if (seen && rounds > sp.max_iterations_) G.viol("too many rounds", "a tall pile took %d rounds with a limit of %d", rounds, sp.max_iterations_);
    if (seen && rounds < sp.max_iterations_ && !s.equilibrium_)
        G.viol("stopped early", "a tall pile: stopped after %d of %d rounds without equilibrium", rounds, sp.max_iterations_);
    if (!small && !s.equilibrium_) G.viol("stopped early", "a tall pile on %d x %d cells is not at equilibrium after %d rounds", NX(s), NY(s), rounds);
    if (s.equilibrium_) {
        std::string u = unstable_somewhere(s, dh_max_of(g, sp), cz, 1e-5, false);
        if (!u.empty()) G.viol("not at equilibrium", "a tall pile: equilibrium but %s", u.c_str());
    }
}
static void p10_case() {
    if (G.case_idx == 0) return p10_pinned();
    Rng r = G.rng();
    if (G.case_idx % 97 == 50) return p10_pile(r);
    ScenOpts so;
    so.seed_soil = 0.6;
    bool gentle = G.case_idx % 2 == 0;         // small moves, wide buffer: the whole grid has to be stable
    so.big_steps = !gentle;
    if (gentle) so.buffer = r.ri(4, 7);
    int mode = r.ri(0, 3);
    so.iters = mode == 0 ? r.ri(0, 3) : mode == 1 ? r.ri(100, 300) : mode == 2 ? r.ri(4, 20) : -1;
    so.nmax = mode == 1 ? 14 : 18; so.steps_max = mode == 1 ? 22 : 40;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    int rounds = 0, still = 0;
    uint64_t h0 = 0, last = 0;
    bool last_moved = false, seen = false, big = false;
    H.relax_terrain = [&](SO* s, ss::Grid&, ss::Body*, ss::SimParam&, float, Call real) {
        if (rounds && heights(*s) == last) still++;       // the previous round moved nothing, yet another one follows
        rounds++; seen = true;
        last = heights(*s);
        real();
    };
    double disp = 0;
    const int iters = e.param.max_iterations_;
    e.play([&](Episode& ep) {
               // some steps are allowed no round at all
               ep.param.max_iterations_ = ep.step_no && G.case_idx % 3 == 1 && r.ch(0.25) ? 0 : iters;
               rounds = still = 0; seen = false; h0 = heights(ep.so);
               disp = ep.step_no ? ep.max_disp(ep.pos, ep.ori) : 0; },
           [&](Episode& ep, bool ret) {
               G.count("steps"); if (!ret) return;
               G.count("acting steps");
               if (disp > 2.001 * sc.cz) big = true;
               int it = ep.param.max_iterations_;
               double dh = dh_max_of(ep.grid, ep.param);
               last_moved = rounds && heights(ep.so) != last;
               G.count("rounds", rounds);
               if (H.hits["RelaxTerrain"]) {
                   if (rounds > it) G.viol("too many rounds", "step %d made %d rounds with a limit of %d", ep.step_no, rounds, it);
                   if (rounds < 1 && it > 0) G.viol("no round", "step %d made no relaxation round", ep.step_no);
                   bool drifted = off_cells(ep.so, sc.cz) > 0.3 * sc.tol;
                   if (drifted) G.count("steps with heights drifted off whole cells");
                   if (still && !drifted) G.viol("did not stop", "step %d went on after a round that moved nothing", ep.step_no);
                   if (last_moved && ep.so.equilibrium_)
                       G.viol("false equilibrium", "step %d reports equilibrium although its last round moved soil", ep.step_no);
                   if (rounds < it && !ep.so.equilibrium_)
                       G.viol("stopped early", "step %d stopped after %d of %d rounds without equilibrium", ep.step_no, rounds, it);
                   if (rounds && !last_moved && !ep.so.equilibrium_ && !drifted)
                       G.viol("equilibrium not reported", "step %d: the last round moved nothing but equilibrium is not reported", ep.step_no);
               }
               if (it == 0 && ep.so.equilibrium_)
                   G.viol("equilibrium without rounds", "step %d made no round but reports equilibrium", ep.step_no);
               if (!ep.so.equilibrium_) { G.count("steps that ran out of rounds"); return; }
               G.count("equilibrium reports");
               if (rounds != 1) G.nontrivial(digest(ep.so));     // (none seen if Step no longer calls RelaxTerrain)
               std::string u = unstable_somewhere(ep.so, dh, sc.cz, sc.tol, false);
               if (!u.empty()) G.viol("not at equilibrium", "step %d reports equilibrium but %s", ep.step_no, u.c_str());
               if (gentle && !big) {
                   G.count("equilibrium reports verified on the whole grid");
                   u = unstable_somewhere(ep.so, dh, sc.cz, sc.tol, true);
                   if (!u.empty()) G.viol("not at equilibrium outside", "step %d reports equilibrium but %s (active area "
                       "x %d..%d y %d..%d)", ep.step_no, u.c_str(), ep.so.impact_area_[0][0], ep.so.impact_area_[0][1],
                       ep.so.impact_area_[1][0], ep.so.impact_area_[1][1]);
               }
           });
    G.sample("%s, %d steps, last step: %d rounds, equilibrium %d", sc.text().c_str(), e.step_no, rounds, e.so.equilibrium_);
}
static Reg r10({"P10", "case = one simulated history; every round is observed and every equilibrium report is compared with "
    "the stability of all columns and parcels; non-trivial = an equilibrium reached after more than one round, counted by "
    "the digest of the state", p10_case, 8000, 120000});

// ---------------------------------------------------------------- P11
static void p11_case() {
    Rng r = G.rng();
    int mode = G.case_idx % 3;
    if (mode < 2) {             // terrain alone
        static const float RATIO[] = {1.0f, 0.5f, 0.25f, 0.2f, 0.1f};
        float cxy = r.ch(0.5) ? 0.05f : r.ch(0.5) ? 0.1f : 1.0f, cz = cxy * RATIO[r.ri(0, 4)];
        int nx = r.ri(3, 11), ny = r.ri(3, 11);
        int nz = r.ch(0.5) ? 60 : r.ri(std::max(1, static_cast<int>(std::ceil(cxy / cz))), 60);     // terrain may lie outside
        ss::Grid g(nx * cxy, ny * cxy, nz * cz, cxy, cz);
        if (g.half_length_z_ < 50) G.count("terrains that leave the vertical extent of the grid");
        ss::Bucket body(VF{0, 0, 0}, VF{0, 0, 0}, VF{0, 0, -0.5f}, VF{0.7f, 0, -0.5f}, 0.5f);
        body.ori_ = {1, 0, 0, 0};
        int k = r.ri(1, 6);
        ss::SimParam sp(static_cast<float>(std::atan(k * static_cast<double>(g.cell_size_z_) / g.cell_size_xy_)), 10, r.ri(2, 5));
        double dh = dh_max_of(g, sp);
        SO s(g);
        float tol = 1e-5f;
        int kind = r.ri(0, 3), base = r.ri(nz < 30 && r.ch(0.5) ? -nz - 2 : -10, 10), peak = r.ri(1, 40);
        for (int i = 0; i < NX(s); i++)
            for (int j = 0; j < NY(s); j++) {
                int h = base;
                if (kind == 0) h += r.ri(0, peak);
                if (kind == 1 && r.ch(0.05)) h += peak;
                if (kind == 2) h += (i > NX(s) / 2 ? peak : 0);
                if (kind == 3) h += ((i + j) % 2 ? std::min(peak, 6) : 0);
                s.terrain_[i][j] = g.cell_size_z_ * static_cast<float>(h);
            }
        if (kind == 1 || r.ch(0.1)) s.terrain_[nx][ny] = g.cell_size_z_ * static_cast<float>(base + peak);
        ss::rng.seed(static_cast<unsigned>(r.next()));
        // every avalanche moves at least one cell at least dh + one cell downhill: the second moment falls by at least
        // two cells squared, which bounds the rounds whatever the order
        double mom = 0;
        for (auto& row : s.terrain_) for (float x : row) { double v = x / g.cell_size_z_ - base; mom += v * v; }
        long bound = std::min(20000L, static_cast<long>(mom / 2) + 2);
        long n = 0;
        bool stop = false;
        for (; n <= bound && !stop; n++) {
            s.impact_area_[0][0] = s.impact_area_[1][0] = 1;
            s.impact_area_[0][1] = NX(s) - 1; s.impact_area_[1][1] = NY(s) - 1;
            SO a = s;
            ss::RelaxTerrain(&s, g, &body, sp, tol);
            double m0 = -1e9, m1 = -1e9, q0 = 0, q1 = 0;
            bool change = false;
            for (int i = 0; i < NX(s); i++)
                for (int j = 0; j < NY(s); j++) {
                    double x = a.terrain_[i][j], y = s.terrain_[i][j];
                    m0 = std::max(m0, x); m1 = std::max(m1, y);
                    q0 += (x / g.cell_size_z_ - base) * (x / g.cell_size_z_ - base);
                    q1 += (y / g.cell_size_z_ - base) * (y / g.cell_size_z_ - base);
                    change |= x != y;
                    bool outer = i == 0 || j == 0 || i == NX(s) - 1 || j == NY(s) - 1;
                    if (outer && y < x - 0.02 * cz) G.viol("ring", "the outermost ring gave soil away at (%d,%d)", i, j);
                }
            if (m1 > m0 + 0.02 * cz) { G.viol("peak rose", "the peak rose from %.4f to %.4f cells in a round", m0 / cz, m1 / cz); break; }
            if (change && q1 > q0 - 1.5) { G.viol("uphill", "a round moved soil without levelling: second moment %.3f -> %.3f", q0, q1); break; }
            if (off_cells(s, g.cell_size_z_) > 0.3 * tol) { G.count("terrains left because heights drifted off whole cells"); return; }
            if (!change && !s.equilibrium_) { G.viol("no verdict", "a round moved nothing without reporting equilibrium"); break; }
            if (change && s.equilibrium_) { G.viol("false verdict", "a round moved soil and reported equilibrium"); break; }
            stop = s.equilibrium_;
        }
        G.count("rounds on bare terrain", n);
        if (!stop && G.viol_case == 0) G.viol("not settled", "no equilibrium after %ld rounds", n);
        if (stop) {
            G.count("terrains settled");
            G.nontrivial(digest(s));
            std::string u = unstable_somewhere(s, dh, cz, tol, true);
            if (!u.empty()) G.viol("settled too steep", "settled but %s", u.c_str());
            SO a = s;
            ss::RelaxTerrain(&s, g, &body, sp, tol);
            if (!same_soil(a, s)) G.viol("not stationary", "another round altered settled terrain");
        }
        return;
    }
    // with a body, through steps
    ScenOpts so;
    so.nmin = 9; so.nmax = 12; so.iters = 600; so.steps_min = 6; so.steps_max = 10; so.seed_soil = 0.4; so.big_steps = false;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    H.relax_terrain = [&](SO* s, ss::Grid&, ss::Body*, ss::SimParam&, float, Call real) {
        double m0 = -1e9, m1 = -1e9;
        for (auto& row : s->terrain_) for (float x : row) m0 = std::max(m0, static_cast<double>(x));
        real();
        for (auto& row : s->terrain_) for (float x : row) m1 = std::max(m1, static_cast<double>(x));
        G.count("rounds with a body");
        if (m1 > m0 + 0.02 * sc.cz) G.viol("peak rose", "relaxing the terrain raised its peak from %.4f to %.4f cells", m0 / sc.cz, m1 / sc.cz);
    };
    double dh = dh_max_of(e.grid, e.param);
    // the body hangs clear above everything at first
    bool aloft = r.ch(0.5);
    if (aloft) {
        double top = -1e9, low = 1e9;
        for (auto& row : e.so.terrain_) for (float x : row) top = std::max(top, static_cast<double>(x));
        for (V3 v : corner_arr(corners(e.pos, e.ori, *e.body()))) low = std::min(low, v.z);
        double z = e.pos[2] + (top - low) + 6 * sc.cz + (sc.blade ? sc.cxy : 0);
        VF p = e.pos; p[2] = static_cast<float>(z);
        if (!e.in_range(p, e.ori)) { G.count("skipped: no room aloft"); return; }
        bool r1 = e.do_step(p, e.ori);
        if (!r1) { G.viol("first step", "the first step did not act"); return; }
        for (int k = 0; k < 20 && !e.so.equilibrium_; k++) { p[2] += sc.cz; e.do_step(p, e.ori); }
        if (off_cells(e.so, sc.cz) > 0.3 * sc.tol) { G.count("histories left because heights drifted off whole cells"); return; }
        if (!e.so.equilibrium_) { G.viol("not settled", "terrain alone not settled after 12000 rounds"); return; }
        auto t0 = e.so.terrain_;
        G.count("terrains settled under a hanging body");
        std::string u = unstable_somewhere(e.so, dh, sc.cz, sc.tol, true);
        if (!u.empty()) G.viol("settled too steep", "settled but %s", u.c_str());
        for (int k = 0; k < 6; k++) {
            VF q = p;
            for (int c = 0; c < 3; c++) q[c] = static_cast<float>(p[c] + r.uf(-1.5, 1.5) * sc.cz);
            q[2] = std::max(q[2], p[2] - 2 * sc.cz);
            if (!e.in_range(q, e.ori)) continue;
            e.do_step(q, e.ori);
            if (!same_bits(t0, e.so.terrain_)) { G.viol("not stationary", "a step aloft altered settled terrain"); return; }
            if (!e.so.equilibrium_) { G.viol("unsettled", "a step aloft lost the equilibrium"); return; }
            G.count("steps aloft over settled terrain");
        }
        G.nontrivial(digest(e.so));
        return;
    }
    int bad = 0;
    e.play(nullptr, [&](Episode& ep, bool ret) {
        if (!ret) return;
        G.count("acting steps with 600 rounds allowed");
        if (off_cells(ep.so, sc.cz) > 0.3 * sc.tol) { G.count("steps with heights drifted off whole cells"); return; }
        if (!ep.so.equilibrium_) {
            if (++bad >= 3) G.viol("not settled", "three steps in a row did not settle in 600 rounds (step %d)", ep.step_no);
            return;
        }
        bad = 0;
        G.nontrivial(digest(ep.so));
        std::string u = unstable_somewhere(ep.so, dh, sc.cz, sc.tol, false);
        if (!u.empty()) G.viol("settled too steep", "step %d settled but %s", ep.step_no, u.c_str());
    });
    G.sample("%s, %d steps", sc.text().c_str(), e.step_no);
}
static Reg r11({"P11", "case = one terrain relaxed round by round to rest (2/3) or one history with up to 600 rounds per step "
    "(1/3); non-trivial = a settled state, counted by its digest", p11_case, 30000, 150000});
