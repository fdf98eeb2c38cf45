// P01 conservation, P02 ledger, P03 no overlap.
#include "monitors.hpp"
using namespace sm;

// ---------------------------------------------------------------- P01
static double recs_remnant(const SO& s, double cz) {
    // soil that transport documents it drops or rounds: small remnants
    double t = 0;
    for (auto& r : s.body_soil_pos_) {
        double h = r.h_soil;
        double q = h < 0.9 * cz ? 0 : cz * std::round(h / cz);
        t += std::abs(h - q);
    }
    return t;
}
static double intersecting_soil(const SO& s) {
    double t = 0;
    for (int l = 0; l < 4; l += 2)
        for (int i = 0; i < NX(s); i++)
            for (int j = 0; j < NY(s); j++) {
                if (!has_soil(s, l, i, j) || !has_body(s, 2 - l, i, j)) continue;
                if (!(s.body_[2 - l][i][j] > s.body_[l][i][j])) continue;
                double e = static_cast<double>(s.body_soil_[l + 1][i][j]) - s.body_[2 - l][i][j];
                if (e > 0) t += std::min(e, col(s, l, i, j));
            }
    return t;
}
namespace {
struct Cons {
    double tol_m;      // metres of total height
    bool saw = false;
    void phase(const char* name, SO* s, double cz, bool lossy, double extra, Call real) {
        double a = total_soil(*s);
        double inter = lossy ? intersecting_soil(*s) : 0;
        long l0 = W.n[W_LOSS];
        uint64_t d0 = digest(*s);
        real();
        double b = total_soil(*s);
        uint64_t d1 = digest(*s);
        G.count(std::string("op ") + name);
        if (d0 != d1) { G.count(std::string("op ") + name + " with effect"); G.nontrivial(mix(d0, d1)); }
        double t = 0.05 * cz + extra;
        if (!(b <= a + t)) G.viol(std::string("created ") + name, "%s created %.4f cells of soil", name, (b - a) / cz);
        if (!(b >= a - t)) {
            if (!lossy || W.n[W_LOSS] == l0)
                G.viol(std::string("lost ") + name, "%s lost %.4f cells of soil without saying so", name, (a - b) / cz);
            else if (a - b > inter + t)
                G.viol("lost too much", "%s removed %.4f cells but only %.4f intersected a layer", name, (a - b) / cz,
                       inter / cz);
            else G.count("announced losses");
        }
    }
};
}  // namespace
static void install_cons(Cons& c) {
    H.relax_terrain = [&](SO* s, ss::Grid& g, ss::Body*, ss::SimParam&, float, Call real) {
        c.phase("RelaxTerrain", s, g.cell_size_z_, false, 0, real); };
    H.relax_body_soil = [&](SO* s, ss::Grid& g, ss::Body*, ss::SimParam&, float, Call real) {
        c.phase("RelaxBodySoil", s, g.cell_size_z_, false, 0, real); };
    H.update_body_soil = [&](SO* s, VF&, VF&, ss::Grid& g, ss::Body*, float, Call real) {
        c.phase("UpdateBodySoil", s, g.cell_size_z_, false, recs_remnant(*s, g.cell_size_z_), real); };
    H.move_body_soil_all = [&](SO* s, ss::Grid& g, ss::Body*, float, Call real) {
        c.phase("MoveIntersectingBodySoil", s, g.cell_size_z_, true, 0, real); };
}
// Known finding: with a repose height of zero cells (tiny repose angle) soil never settles and the rounding noise of
// parcels and columns grows until soil disappears without a warning.
static void p01_pinned() {
    Rng r(mix(77, 3));
    ScenOpts o;
    o.seed_soil = 1; o.allow_zero_repose = true; o.repose_lo = o.repose_hi = 0; o.iters = 40;
    o.steps_min = o.steps_max = 40;
    Scen sc = make_scen(r, o);
    sc.repose = 0;
    Episode e(sc, r);
    G.context = sc.text();
    bool hit = false;
    e.play(nullptr, [&](Episode& ep, bool) {
        double now = recs_remnant(ep.so, sc.cz) / sc.cz;
        if (!hit && now > 0.3 + 0.003 * ep.so.body_soil_pos_.size()) {
            hit = true;
            G.viol("pinned:zero-repose-drift", "after step %d the %zu parcels deviate from whole cells by %.3f cells altogether",
                   ep.step_no, ep.so.body_soil_pos_.size(), now);
        }
    });
    G.count("pinned histories played");
}
static void p01_case() {
    if (G.case_idx == 0) return p01_pinned();
    Rng r = G.rng();
    Cons c;
    install_cons(c);
    if (G.case_idx % 3 == 2) {       // direct operations on synthetic states
        for (int k = 0; k < 40 && G.viol_case < 3; k++) {
            PatchOpts o;
            o.overlap = r.ch(0.5);
            int op = r.ri(0, 6);
            if (op > 4) {
                auto p = op == 5 ? make_squeeze(r, r.ri(1, 4)) : make_cut(r, r.ri(0, 4), r.ch(0.4) ? 6 : 0);
                H.move_body_all = [&](SO* s, float, Call real) { c.phase("MoveIntersectingBody", s, p->cz, false, 0, real); };
                ss::rng.seed(static_cast<unsigned>(r.next()));
                if (op == 5) ss::MoveIntersectingBodySoil(&p->so, *p->grid, p->body.get(), p->tol);
                else ss::MoveIntersectingBody(&p->so, p->tol);
                H.move_body_all = nullptr;
                continue;
            }
            if (op == 4) {
                Transport t = make_transport(r);
                ss::UpdateBodySoil(&t.p->so, t.pos, t.ori, *t.p->grid, t.p->body.get(), t.p->tol);
                continue;
            }
            if (op >= 2) { o.border_free = true; o.nmin = 5; o.nmax = 7; }
            if (op < 2) o.overlap = false;
            auto p = make_patch(r, o);
            ss::SimParam sp(static_cast<float>(r.uf(0, 1.2)), 10, 2);
            ss::rng.seed(static_cast<unsigned>(r.next()));
            H.move_body_all = [&](SO* s, float, Call real) {
                Cons cc; cc.phase("MoveIntersectingBody", s, p->cz, false, 0, real); };
            if (op == 0) ss::RelaxTerrain(&p->so, *p->grid, p->body.get(), sp, p->tol);
            else if (op == 1) {
                // keep the border free of records: neighbours are always in the grid
                auto& v = p->so.body_soil_pos_;
                v.erase(std::remove_if(v.begin(), v.end(), [&](const Rec& q) {
                    bool e = q.ii < 1 || q.jj < 1 || q.ii > NX(p->so) - 2 || q.jj > NY(p->so) - 2;
                    if (e) { p->so.body_soil_[q.ind][q.ii][q.jj] = 0; p->so.body_soil_[q.ind + 1][q.ii][q.jj] = 0; }
                    return e; }), v.end());
                ss::RelaxBodySoil(&p->so, *p->grid, p->body.get(), sp, p->tol);
            } else ss::MoveIntersectingCells(&p->so, *p->grid, p->body.get(), p->tol);
        }
        H.move_body_all = nullptr;
        return;
    }
    Scen sc = make_scen(r);
    Episode e(sc, r);
    G.context = sc.text();
    H.move_body_all = [&](SO* s, float, Call real) { c.phase("MoveIntersectingBody", s, sc.cz, false, 0, real); };
    double a = 0, rem = 0, drift = 0, allowed = 0.3 * sc.cz, last = 0; long l0 = 0;
    // a repose height of one cell: noise can grow as in the finding zero-repose-drift, also by a factor of thousands within
    // one step; it is told by the noise being above its usual size before the step
    bool flat = std::round(sc.cxy * std::tan(static_cast<double>(sc.repose)) / sc.cz) <= 1;
    e.play([&](Episode& ep) { a = total_soil(ep.so); l0 = W.n[W_LOSS]; rem = recs_remnant(ep.so, sc.cz); },
           [&](Episode& ep, bool ret) {
               double b = total_soil(ep.so);
               G.count("steps"); if (ret) G.count("acting steps");
               if (!std::isfinite(b)) G.viol("not finite", "step %d: total is %g", ep.step_no, b);
               if (!(b <= a + 0.15 * sc.cz + rem))
                   G.viol("created step", "step %d created %.4f cells of soil", ep.step_no, (b - a) / sc.cz);
               bool loss = W.n[W_LOSS] != l0;
               if (!(b >= a - 0.15 * sc.cz - rem) && !loss)
                   G.viol("lost step", "step %d lost %.4f cells of soil without saying so", ep.step_no, (a - b) / sc.cz);
               if (!loss) { drift += b - a; allowed += rem; }
               if (std::abs(drift) > allowed)
                   G.viol("drift", "%.4f cells of soil gained or lost over %d steps", drift / sc.cz, ep.step_no + 1);
               double now = recs_remnant(ep.so, sc.cz) / sc.cz;
               if (flat && last > 0.01) G.count("steps after grown rounding noise: remnants not judged");
               else if (ret && now > 0.3 + 0.003 * ep.so.body_soil_pos_.size())
                   G.viol("remnants", "after step %d the %zu parcels deviate from whole cells by %.3f cells altogether",
                          ep.step_no, ep.so.body_soil_pos_.size(), now);
               last = now;
               if (now > 0.01) G.count("states with parcel drift above 0.01 cell");
           });
    G.sample("%s, %d steps, %zu parcels at the end, total %.2f cells", sc.text().c_str(), e.step_no,
             e.so.body_soil_pos_.size(), total_soil(e.so) / sc.cz);
}
static Reg r01({"P01", "case = one simulated history (2/3) or 40 single operations on a synthetic local state (1/3); "
    "the total is compared around every phase and every step; non-trivial = an operation that changed the state, "
    "counted by the digest of the states before and after", p01_case, 4000, 60000});

// ---------------------------------------------------------------- P02
namespace {
struct Ledge {
    void check(const char* name, const SO& s, double cz) {
        Ledger l = ledger(s);
        G.count(std::string("ledger after ") + name);
        if (l.bad) G.viol(std::string("bad record ") + name, "after %s: %s", name, l.bad);
        if (!(l.worst <= 0.25 * cz))
            G.viol(std::string("ledger ") + name, "after %s: layer %d cell (%d,%d) holds %.4f cells but its records "
                   "add up to %.4f", name, l.l, l.i, l.j, l.colh / cz, l.recs / cz);
    }
    void fresh(const char* name, const SO& s, const std::set<RecKey>& old, const ss::Grid& g, const ss::Body& b) {
        double t = 0.02 * g.cell_size_z_ + 2e-6 * grid_reach(g) + 1e-5;
        for (auto& r : s.body_soil_pos_) {
            if (old.count(key_of(r))) continue;
            if (r.ind != 0 && r.ind != 2) continue;
            if (r.ii < 0 || r.jj < 0 || r.ii >= NX(s) || r.jj >= NY(s)) continue;
            G.count("new records");
            double d = pose_gap(s, g, b, r);
            G.nontrivial(mix(hash_bytes(&r.x_b, 12), mix(static_cast<uint64_t>(r.ii * 1000 + r.jj), r.ind)));
            if (!(d <= t))
                G.viol(std::string("new record point ") + name, "%s created a record in layer %d cell (%d,%d) whose "
                       "point lies %.5g m (%.3f cells) away from that cell's layer top", name, r.ind, r.ii, r.jj, d,
                       d / g.cell_size_xy_);
        }
    }
    void phase(const char* name, SO* s, const ss::Grid& g, const ss::Body& b, bool fresh_too, Call real) {
        auto k = rec_keys(*s);
        real();
        check(name, *s, g.cell_size_z_);
        if (fresh_too) fresh(name, *s, k, g, b);
    }
};
}  // namespace
static void p02_case() {
    Rng r = G.rng();
    Ledge L;
    H.relax_terrain = [&](SO* s, ss::Grid& g, ss::Body* b, ss::SimParam&, float, Call real) {
        L.phase("RelaxTerrain", s, g, *b, true, real); };
    H.relax_body_soil = [&](SO* s, ss::Grid& g, ss::Body* b, ss::SimParam&, float, Call real) {
        L.phase("RelaxBodySoil", s, g, *b, true, real); };
    H.move_body_soil_all = [&](SO* s, ss::Grid& g, ss::Body* b, float, Call real) {
        L.phase("MoveIntersectingBodySoil", s, g, *b, true, real); };
    H.update_body_soil = [&](SO* s, VF&, VF&, ss::Grid& g, ss::Body* b, float, Call real) {
        L.phase("UpdateBodySoil", s, g, *b, false, real); };
    if (G.case_idx % 3 == 2) {
        for (int k = 0; k < 40 && G.viol_case < 3; k++) {
            int op = r.ri(0, 4);
            if (op == 4) {
                auto p = make_squeeze(r, r.ri(1, 4));
                ss::rng.seed(static_cast<unsigned>(r.next()));
                ss::MoveIntersectingBodySoil(&p->so, *p->grid, p->body.get(), p->tol);
                continue;
            }
            if (op == 3) {
                Transport t = make_transport(r);
                ss::UpdateBodySoil(&t.p->so, t.pos, t.ori, *t.p->grid, t.p->body.get(), t.p->tol);
                continue;
            }
            PatchOpts o;
            o.border_free = true; o.nmin = 5; o.nmax = 7; o.overlap = op == 2 && r.ch(0.7);
            auto p = make_patch(r, o);
            ss::SimParam sp(static_cast<float>(r.uf(0, 1.2)), 10, 2);
            ss::rng.seed(static_cast<unsigned>(r.next()));
            if (op == 0) ss::RelaxTerrain(&p->so, *p->grid, p->body.get(), sp, p->tol);
            else if (op == 1) ss::RelaxBodySoil(&p->so, *p->grid, p->body.get(), sp, p->tol);
            else ss::MoveIntersectingCells(&p->so, *p->grid, p->body.get(), p->tol);
        }
        return;
    }
    ScenOpts so;
    so.seed_soil = 0.8;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    std::set<RecKey> old;
    std::set<std::tuple<float, float, float>> pts;
    e.play([&](Episode& ep) { pts.clear(); for (auto& q : ep.so.body_soil_pos_) pts.insert({q.x_b, q.y_b, q.z_b}); },
           [&](Episode& ep, bool ret) {
               G.count("steps"); if (!ret) return;
               L.check("Step", ep.so, sc.cz);
               if (!ep.so.body_soil_pos_.empty()) G.nontrivial(digest(ep.so));
               double t = 0.02 * sc.cz + 2e-6 * grid_reach(ep.grid) + 1e-5;
               for (auto& q : ep.so.body_soil_pos_) {
                   if (pts.count({q.x_b, q.y_b, q.z_b})) continue;
                   if (q.h_soil < 0.5 * sc.cz) continue;
                   G.count("records created by steps");
                   double d = pose_gap(ep.so, ep.grid, *ep.body(), q);
                   if (!(d <= t)) G.viol("new record point Step", "step %d created a record in layer %d cell (%d,%d) "
                       "whose point is %.5g m away from the layer top there", ep.step_no, q.ind, q.ii, q.jj, d);
               }
           });
    G.sample("%s, %d steps, %zu parcels at the end", sc.text().c_str(), e.step_no, e.so.body_soil_pos_.size());
}
static Reg r02({"P02", "case = one simulated history (2/3) or 40 single operations (1/3); records are reconciled with "
    "columns after every phase and step and every new record is posed back; non-trivial = a newly created record, "
    "counted by its point, cell and layer, and a state with records after a step", p02_case, 6000, 90000});

// ---------------------------------------------------------------- P03
static void p03_case() {
    Rng r = G.rng();
    ScenOpts so;
    so.seed_soil = 0.7;
    Scen sc = make_scen(r, so);
    Episode e(sc, r);
    G.context = sc.text();
    e.play(nullptr, [&](Episode& ep, bool ret) {
        G.count("steps"); if (!ret) return;
        G.count("acting steps");
        long bodyc = 0, soilc = 0, buried = 0;
        for (int i = 0; i < NX(ep.so); i++)
            for (int j = 0; j < NY(ep.so); j++) {
                CellV c = cell(ep.so, i, j);
                const char* b = broken_convention(c, sc.tol * 1.5 + 1e-6);
                if (b) G.viol(b, "after step %d cell (%d,%d): %s: %s", ep.step_no, i, j, b, show(c).c_str());
                if (c.B(0) || c.B(2)) bodyc++;
                if (c.S(0) || c.S(2)) soilc++;
                if ((c.B(0) && c.t >= c.b[0] - sc.tol) || (c.B(2) && c.t >= c.b[2] - sc.tol)) buried++;
            }
        G.count("cells with body", bodyc); G.count("cells with body soil", soilc); G.count("cells with terrain up to the body", buried);
        if (buried || soilc) G.nontrivial(digest(ep.so));
    });
    G.sample("%s, %d steps, %zu parcels at the end", sc.text().c_str(), e.step_no, e.so.body_soil_pos_.size());
}
static Reg r03({"P03", "case = one simulated history; every cell of the grid is checked after every acting step; "
    "non-trivial = a state in which terrain reaches the body or the body carries soil, counted by its digest",
    p03_case, 12000, 120000});
