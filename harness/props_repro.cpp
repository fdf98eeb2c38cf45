// P16 reproducibility and independence, P04 memory safety.
#include <malloc.h>
#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <new>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <memory>
#include <sstream>
#include "monitors.hpp"
using namespace sm;

// ---------------------------------------------------------------- P16
namespace {
struct Log16 { std::vector<uint64_t> d; std::string rng; bool ret_any = false; };
std::string rng_state(const std::mt19937& g) { std::stringstream s; s << g; return s.str(); }
uint64_t body_digest(const ss::Body& b) {
    uint64_t h = 7;
    for (auto* v : {&b.j_pos_init_, &b.b_pos_init_, &b.t_pos_init_, &b.pos_, &b.ori_}) h = hash_bytes(v->data(), v->size() * 4, h);
    return hash_bytes(&b.width_, 4, h);
}
uint64_t full(Episode& e) {
    return mix(mix(digest(e.so), body_digest(*e.body())), hash_str(rng_state(ss::rng)));
}
// Plays up to `n` steps of a scenario from its current point; keeps its own random state while others play
struct Player {
    Scen sc;
    std::unique_ptr<Episode> e;
    std::mt19937 own;
    Log16 log;
    bool over = false;
    std::unique_ptr<ss::Grid> grid0;
    uint64_t shape0 = 0, grid_d = 0;
    Player(const Scen& s, Rng r) : sc(s) {
        std::mt19937 saved = ss::rng;
        e = std::make_unique<Episode>(s, r);
        own = ss::rng;
        ss::rng = saved;
        grid_d = gd();
    }
    uint64_t gd() {
        const ss::Grid& g = e->grid;
        uint64_t h = hash_bytes(g.vect_x_.data(), g.vect_x_.size() * 4);
        h = hash_bytes(g.vect_y_.data(), g.vect_y_.size() * 4, h);
        h = hash_bytes(g.vect_z_.data(), g.vect_z_.size() * 4, h);
        float f[] = {g.cell_size_xy_, g.cell_size_z_, g.cell_area_, g.cell_volume_, e->param.repose_angle_};
        int n[] = {g.half_length_x_, g.half_length_y_, g.half_length_z_, e->param.max_iterations_, e->param.cell_buffer_};
        return hash_bytes(n, sizeof n, hash_bytes(f, sizeof f, h));
    }
    void step() {
        if (over) return;
        if (e->step_no >= sc.steps) { over = true; return; }
        std::mt19937 saved = ss::rng;
        ss::rng = own;
        if (!e->propose()) over = true;
        else {
            if (sc.seed_soil && e->step_no == 1) e->add_body_soil(0.6);
            bool ret = e->do_step(e->pos, e->ori);
            log.ret_any |= ret;
            log.d.push_back(mix(full(*e), ret));
            if (e->so.body_soil_pos_.size() > 3000) over = true;
        }
        e->step_no++;
        own = ss::rng;
        ss::rng = saved;
        if (gd() != grid_d) G.viol("parameters changed", "step %d changed the grid or the parameters", e->step_no);
    }
    void all() { while (!over) step(); }
};
void noise_work(Rng& r) {        // other simulations in between
    ScenOpts o;
    o.nmin = 8; o.nmax = 12; o.steps_min = 2; o.steps_max = 6; o.seed_soil = 0.7;
    Scen s = make_scen(r, o);
    Player p(s, r);
    p.all();
}
bool compare(const char* what, const Log16& a, const Log16& b) {
    size_t n = std::min(a.d.size(), b.d.size());
    for (size_t k = 0; k < n; k++)
        if (a.d[k] != b.d[k]) { G.viol(what, "%s: the two runs differ from step %zu on", what, k); return false; }
    if (a.d.size() != b.d.size()) { G.viol(what, "%s: %zu and %zu steps", what, a.d.size(), b.d.size()); return false; }
    return true;
}
// Single calls of public functions with all their inputs, made again in other orders: nothing but the inputs may matter.
struct Call16 {
    int op;
    SO so;
    ss::Grid grid;
    std::shared_ptr<ss::Bucket> bucket;
    std::shared_ptr<ss::Blade> blade;
    ss::SimParam sp;
    float tol;
    VF pos, ori;
    unsigned seed;
    int a, b, c;
    float x, y;
    uint64_t first = 0;
    int id = -1, sibling = -1;
};
const char* const OP16[] = {"Init", "CalcBodyPos", "UpdateBodySoil", "MoveIntersectingCells", "MoveIntersectingBodySoil", "MoveIntersectingBody",
    "RelaxTerrain", "RelaxBodySoil", "LocateUnstableTerrainCell", "CheckUnstable", "CheckVolume", "CheckSoil", "CalcBodyFramePos", "CalcBodyCornerPos",
    "pose mathematics", "simplex_noise", "CheckBodyMovement", "Step", "WriteOutputs", "CalcLinePos", "Check", "LocateIntersectingCells", "constructors"};
uint64_t hv(const VF& v, uint64_t h = 3) { return hash_bytes(v.data(), v.size() * 4, h + v.size()); }
uint64_t hv(const std::vector<std::vector<int>>& v, uint64_t h = 3) { for (auto& x : v) h = hash_bytes(x.data(), x.size() * 4, h + x.size()); return h; }
uint64_t warn_count() { uint64_t s = 0; for (long x : W.n) s += static_cast<uint64_t>(x); return s; }
uint64_t written() {
    namespace fs = std::filesystem;
    std::map<std::string, std::string> d;
    for (auto& f : fs::directory_iterator("results")) {
        std::ifstream i(f.path(), std::ios::binary);
        std::stringstream b;
        b << i.rdbuf();
        d[f.path().filename().string()] = b.str();
    }
    uint64_t h = 11;
    for (auto& f : d) { h = mix(mix(h, hash_str(f.first)), hash_str(f.second)); fs::remove("results/" + f.first); }
    return h;
}
uint64_t grid_digest(const ss::Grid& g, const ss::SimParam& p) {
    uint64_t h = hv(g.vect_x_, hv(g.vect_y_));
    h = hash_bytes(g.vect_z_.data(), g.vect_z_.size() * sizeof g.vect_z_[0], h);
    float f[] = {g.cell_size_xy_, g.cell_size_z_, g.cell_area_, g.cell_volume_, p.repose_angle_};
    int n[] = {g.half_length_x_, g.half_length_y_, g.half_length_z_, p.max_iterations_, p.cell_buffer_};
    return hash_bytes(n, sizeof n, hash_bytes(f, sizeof f, h));
}
uint64_t run16(const Call16& k) {
    SO so = k.so;
    ss::Grid g = k.grid;
    ss::SimParam sp = k.sp;
    std::unique_ptr<ss::Bucket> bu;
    std::unique_ptr<ss::Blade> bl;
    if (k.bucket) bu = std::make_unique<ss::Bucket>(*k.bucket); else bl = std::make_unique<ss::Blade>(*k.blade);
    ss::Body* body = bu ? static_cast<ss::Body*>(bu.get()) : bl.get();
    VF pos = k.pos, ori = k.ori;
    uint64_t h = 17, gd = grid_digest(g, sp);
    ss::SoilDynamics sim;
    std::mt19937 saved = ss::rng;
    ss::rng.seed(k.seed);
    switch (k.op) {
        case 0: sim.Init(&so, g, k.x); break;
        case 1: if (bu) ss::CalcBodyPos(&so, pos, ori, g, bu.get(), sp, k.tol); else ss::CalcBodyPos(&so, pos, ori, g, bl.get(), sp, k.tol); break;
        case 2: ss::UpdateBodySoil(&so, pos, ori, g, body, k.tol); break;
        case 3: ss::MoveIntersectingCells(&so, g, body, k.tol); break;
        case 4: ss::MoveIntersectingBodySoil(&so, g, body, k.tol); break;
        case 5: ss::MoveIntersectingBody(&so, k.tol); break;
        case 6: ss::RelaxTerrain(&so, g, body, sp, k.tol); break;
        case 7: ss::RelaxBodySoil(&so, g, body, sp, k.tol); break;
        case 8: h = hv(ss::LocateUnstableTerrainCell(&so, k.x, k.tol)); break;
        case 9:
            for (int i = 1; i + 1 < NX(so); i++)
                for (int j = 1; j + 1 < NY(so); j++) {     // every cell away from the border
                    h = mix(h, static_cast<uint64_t>(ss::CheckUnstableTerrainCell(&so, i, j, so.terrain_[i - 1][j] - k.x, k.tol)));
                    for (int l : {0, 2}) if (has_soil(so, l, i, j))
                        h = mix(h, static_cast<uint64_t>(ss::CheckUnstableBodyCell(&so, i, j, l, i, j + 1, so.body_soil_[l + 1][i][j] - k.x, k.tol)));
                }
            break;
        case 10: h = ss::CheckVolume(&so, k.a, g, k.tol); break;
        case 11: h = ss::CheckSoil(&so, k.tol); break;
        case 12: h = hv(ss::CalcBodyFramePos(k.a, k.b, k.x, g, body)); break;
        case 13: {
            auto [p1, p2, p3, p4, p5, p6] = ss::CalcBodyCornerPos(pos, ori, body);
            for (auto* v : {&p1, &p2, &p3, &p4, &p5, &p6}) h = hv(*v, h);
            break;
        }
        case 14:
            h = hv(ss::AngleToQuat({k.x, k.y, k.pos[0]}));
            h = hv(ss::MultiplyQuaternion(k.ori, {k.x, k.y, k.pos[0], k.pos[1]}), h);
            h = hv(ss::CalcRotationQuaternion(k.ori, k.pos), h);
            h = hv(ss::CalcNormal(body->j_pos_init_, body->b_pos_init_, body->t_pos_init_), h);
            break;
        case 15: {
            std::vector<int> t(256);
            for (int n = 0; n < 256; n++) t[static_cast<size_t>(n)] = (n * (2 * k.a + 1) + k.b) & 255;
            for (int n = 0; n < 16; n++) { float f = ss::simplex_noise(k.x + 1 + static_cast<float>(n) * 0.37f, k.y + 3 - static_cast<float>(n) * 0.11f, t); h = hash_bytes(&f, 4, h); }
            break;
        }
        case 16: h = ss::CheckBodyMovement(pos, ori, g, body); break;
        case 17: h = bu ? sim.Step(&so, pos, ori, g, bu.get(), sp, k.tol) : sim.Step(&so, pos, ori, g, bl.get(), sp, k.tol); break;
        case 18:
            written();
            if (bu) sim.WriteOutputs(&so, g, bu.get()); else sim.WriteOutputs(&so, g, bl.get());
            h = written();
            break;
        case 19: {
            VF p1 = {g.vect_x_[1], g.vect_y_[1], k.x}, p2 = {g.vect_x_[NX(so) - 2], g.vect_y_[NY(so) - 3], k.y}, p3 = {g.vect_x_[2], g.vect_y_[NY(so) - 2], k.x};
            VF p4 = {p2[0] + p3[0] - p1[0], p2[1] + p3[1] - p1[1], p2[2] + p3[2] - p1[2]};
            h = hv(ss::CalcLinePos(p1, p2, g));
            h = hv(ss::CalcTrianglePos(p1, p2, p3, g, k.tol), h);
            if (p4[0] < g.vect_x_.back() && p4[1] < g.vect_y_.back() && p4[0] > g.vect_x_[0] && p4[1] > g.vect_y_[0])
                h = hv(ss::CalcRectanglePos(p1, p2, p4, p3, g, k.tol), h);
            break;
        }
        case 20: {
            h = warn_count();
            sim.Check(&so, k.a, g, k.tol);
            h = warn_count() - h;
            break;
        }
        case 21: h = hv(ss::LocateIntersectingCells(&so, k.tol)); break;
        case 22: {
            ss::Grid ng(g.cell_size_xy_ * static_cast<float>(NX(so)) * 0.5f, g.cell_size_xy_ * static_cast<float>(NY(so)) * 0.4f, g.cell_size_z_ * 30, g.cell_size_xy_, g.cell_size_z_);
            SO ns(ng);
            ss::Bucket nb(k.pos, {k.pos[0], 0, 0}, {0, k.x, -0.5f}, {0.7f, k.y, -0.5f}, 0.5f);
            h = mix(grid_digest(ng, sp), mix(digest(ns), body_digest(nb)));
            break;
        }
    }
    if (grid_digest(g, sp) != gd || pos != k.pos || ori != k.ori) G.viol("parameters changed", "%s changed the grid, the parameters or the pose it was given", OP16[k.op]);
    h = mix(mix(mix(h, digest(so)), body_digest(*body)), hash_str(rng_state(ss::rng)));
    ss::rng = saved;
    return h;
}
void p16_calls() {
    Rng r = G.rng();
    G.context = "calls repeated in other orders";
    std::vector<Call16> calls;
    auto add = [&](const SO& so, const ss::Grid& g, const ss::Bucket* bu, const ss::Blade* bl, const ss::SimParam& sp, float tol, const VF& pos, const VF& ori, std::initializer_list<int> ops, int n) {
        for (int q = 0; q < n; q++) {
            Call16 k{*(ops.begin() + r.ri(0, static_cast<int>(ops.size()) - 1)), so, g, bu ? std::make_shared<ss::Bucket>(*bu) : nullptr, bl ? std::make_shared<ss::Blade>(*bl) : nullptr,
                     sp, tol, pos, ori, static_cast<unsigned>(r.next()), r.ri(0, NX(so) - 1), r.ri(0, NY(so) - 1), r.ri(0, 5),
                     static_cast<float>(r.uf(-1, 1)), static_cast<float>(r.uf(-1, 1))};
            if (k.op == 8 || k.op == 9) k.x = g.cell_size_z_ * static_cast<float>(r.ri(1, 3));
            if (k.op == 10 || k.op == 20) k.a = r.ch(0.5) ? static_cast<int>(volume_of(so, g.cell_size_z_)) : r.ri(-5, 5);
            calls.push_back(k);
        }
    };
    // states in the middle of histories, with the pose proposed next
    for (int h = 0; h < 2; h++) {
        ScenOpts o;
        o.nmin = 9; o.nmax = 14; o.steps_min = 4; o.steps_max = 10; o.seed_soil = 0.8;
        Scen sc = make_scen(r, o);
        Episode e(sc, r);
        e.play([&](Episode& ep) {
            if (!r.ch(0.3)) return;
            add(ep.so, ep.grid, ep.bucket.get(), ep.blade.get(), ep.param, sc.tol, ep.pos, ep.ori,
                {0, 1, 1, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 17, 17, 18, 19, 20, 21, 22}, r.ri(1, 3));
        }, nullptr);
    }
    for (int h = 0; h < 2; h++) {
        PatchOpts o;
        o.nmin = 3; o.nmax = 6;
        o.border_free = true;
        auto p = make_patch(r, o);
        ss::SimParam sp(static_cast<float>(r.uf(0.4, 1.4)), 3, 2);
        add(p->so, *p->grid, p->body.get(), nullptr, sp, p->tol, p->body->pos_, p->body->ori_, {6, 7, 8, 9, 10, 11, 20, 12, 15, 18}, 3);
    }
    auto t = make_transport(r);
    add(t.p->so, *t.p->grid, t.p->body.get(), nullptr, ss::SimParam(0.8f, 3, 2), t.p->tol, t.pos, t.ori, {2, 13, 16}, 2);
    auto q = make_squeeze(r, r.ri(1, 2));
    add(q->so, *q->grid, q->body.get(), nullptr, ss::SimParam(0.8f, 3, 2), q->tol, q->body->pos_, q->body->ori_, {3, 4, 4}, 2);
    auto c = make_cut(r, r.ri(1, 3), 0);
    add(c->so, *c->grid, c->body.get(), nullptr, ss::SimParam(0.8f, 3, 2), c->tol, c->body->pos_, c->body->ori_, {3, 5, 5}, 2);
    // siblings that differ in one input only
    for (size_t k = 0, n = calls.size(); k < n; k++) {
        if (!r.ch(0.5)) continue;
        Call16 x = calls[k];
        int kind = r.ri(0, 8);
        if (x.op == 12 || x.op == 14 || x.op == 15) kind = r.ch(0.3) ? 9 : kind;
        if (x.op == 10 || x.op == 11 || x.op == 20) kind = r.ch(0.6) ? 11 : kind;
        if (x.op == 13 || x.op == 16 || x.op == 14) kind = r.ch(0.3) ? 10 : kind;
        if (x.bucket) x.bucket = std::make_shared<ss::Bucket>(*x.bucket); else x.blade = std::make_shared<ss::Blade>(*x.blade);
        ss::Body* b = x.bucket ? static_cast<ss::Body*>(x.bucket.get()) : x.blade.get();
        switch (kind) {
            case 0: for (auto* v : {&b->j_pos_init_, &b->b_pos_init_, &b->t_pos_init_}) for (float& f : *v) f *= 0.875f; break;
            case 1: b->width_ *= 0.75f; break;
            case 2: x.tol *= 2; break;
            case 3: x.sp.repose_angle_ = x.sp.repose_angle_ > 1 ? 0.9f : 1.2f; break;
            case 4: x.sp.cell_buffer_++; break;
            case 5: x.sp.max_iterations_++; break;
            case 6: x.grid = ss::Grid(x.grid.half_length_x_ * x.grid.cell_size_xy_, x.grid.half_length_y_ * x.grid.cell_size_xy_,
                        x.grid.half_length_z_ * x.grid.cell_size_z_, x.grid.cell_size_xy_, x.grid.cell_size_z_ * 0.5f); break;
            case 7: x.so.terrain_[r.ri(1, NX(x.so) - 2)][r.ri(1, NY(x.so) - 2)] -= 2 * x.grid.cell_size_z_; break;
            case 8: x.seed++; break;
            case 9: x.a = r.ri(0, NX(x.so) - 1); x.b = r.ri(0, NY(x.so) - 1); (r.ch(0.3) ? x.x : r.ch(0.5) ? x.y : x.pos[0]) += 0.5f; break;
            case 11: {         // other soil, records or both
                int l = 2 * r.ri(0, 1), i = r.ri(0, NX(x.so) - 1), j = r.ri(0, NY(x.so) - 1);
                if (!x.so.body_soil_pos_.empty() && r.ch(0.5)) {
                    auto& q = x.so.body_soil_pos_[r.next() % x.so.body_soil_pos_.size()];
                    if (r.ch(0.5)) { l = q.ind; i = q.ii; j = q.jj; } else { q.h_soil += x.grid.cell_size_z_; break; }
                }
                if (r.ch(0.3)) x.so.body_soil_pos_.clear();
                x.so.body_soil_[l + 1][i][j] += x.grid.cell_size_z_;
                break;
            }
            case 10: x.ori = random_quat(r); if (r.ch(0.3)) { x.ori = calls[k].ori; for (float& f : x.ori) f = -f; } break;
        }
        if (NX(x.so) != static_cast<int>(x.grid.vect_x_.size()) || NY(x.so) != static_cast<int>(x.grid.vect_y_.size())) continue;
        G.count("calls with one input changed");
        x.sibling = static_cast<int>(k);
        calls.push_back(x);
    }
    for (size_t k = 0; k < calls.size(); k++) calls[k].id = static_cast<int>(k);
    // first in random order, then backwards, then each twice in a row
    auto shuffle = [&] { for (size_t k = calls.size(); k > 1; k--) std::swap(calls[k - 1], calls[r.next() % k]); };
    shuffle();
    if (G.variant != "hook") std::reverse(calls.begin(), calls.end());      // another order in another process
    std::vector<uint64_t> results(calls.size());
    for (auto& k : calls) {
        k.first = run16(k);
        results[static_cast<size_t>(k.id)] = k.first;
        G.nontrivial(k.first);
        G.count(std::string("calls repeated: ") + OP16[k.op]);
    }
    for (uint64_t d : results) G.trace = mix(G.trace, d);
    auto again = [&](Call16& k, const char* how) {
        if (run16(k) != k.first) G.viol("repeated call", "%s gives another result for the same inputs when it is called %s", OP16[k.op], how);
    };
    for (size_t k = calls.size(); k-- > 0;) again(calls[k], "after other calls");
    shuffle();
    for (auto& k : calls) { again(k, "after other calls"); again(k, "twice in a row"); }
    std::vector<Call16*> by(calls.size());
    for (auto& k : calls) by[static_cast<size_t>(k.id)] = &k;
    for (auto& k : calls)
        if (k.sibling >= 0) {
            Call16& o = *by[static_cast<size_t>(k.sibling)];
            again(o, "after other calls");
            again(k, "right after a call with one input changed");
            again(o, "right after a call with one input changed");
        }
}
}  // namespace
static void p16_case() {
    if (G.case_idx % 5 == 4) return p16_calls();
    Rng r = G.rng();
    ScenOpts o;
    o.nmin = 9; o.nmax = 15; o.steps_min = 6; o.steps_max = 18; o.seed_soil = 0.7;
    Scen sc = make_scen(r, o), sd = make_scen(r, o);
    Rng ra(r.next()), rb(r.next());
    G.context = sc.text();
    Player a(sc, ra);
    a.all();
    for (uint64_t d : a.log.d) { G.nontrivial(d); G.trace = mix(G.trace, d); }
    G.count("steps", static_cast<long>(a.log.d.size()));
    if (G.case_idx % 2 == 1 && G.variant != "hook") return;      // the other stages mainly compare digests with each other
    ss::rng.seed(static_cast<unsigned>(r.next()));
    noise_work(r);
    std::vector<std::vector<char>> junk;
    for (int k = 0; k < 40; k++) junk.emplace_back(static_cast<size_t>(r.ri(8, 4000)), static_cast<char>(r.ri(0, 255)));
    junk.clear();
    Player b(sc, ra);
    b.all();
    compare("repeated run", a.log, b.log);
    G.count("repeated runs");
    // interleaved with another simulation
    Player c(sd, rb), d(sc, ra), f(sd, rb);
    while (!d.over || !f.over) {
        int k = r.ri(1, 3);
        while (k-- > 0) d.step();
        k = r.ri(1, 3);
        while (k-- > 0) f.step();
    }
    c.all();
    compare("interleaved run", a.log, d.log);
    compare("interleaved second run", c.log, f.log);
    G.count("interleaved pairs");
    // resumed from a copy of the state: nothing else is remembered
    if (a.log.d.size() > 3) {
        Player x(sc, ra);
        size_t stop = 1 + r.next() % (a.log.d.size() - 2);
        for (size_t k = 0; k < stop; k++) x.step();
        Player y(sc, ra);
        y.e->so = x.e->so; y.e->body()->pos_ = x.e->body()->pos_; y.e->body()->ori_ = x.e->body()->ori_;
        y.e->r = x.e->r; y.e->pos = x.e->pos; y.e->ori = x.e->ori; y.e->vel = x.e->vel; y.e->axis = x.e->axis;
        y.e->rotw = x.e->rotw; y.e->stepf = x.e->stepf; y.e->seg_left = x.e->seg_left; y.e->seg_no = x.e->seg_no; y.e->step_no = x.e->step_no;
        y.own = x.own; y.log = x.log;
        noise_work(r);
        y.all();
        compare("run resumed from a copy of its state", a.log, y.log);
        G.count("resumed runs");
    }
    G.sample("%s: %zu steps, last digest %016llx", sc.text().c_str(), a.log.d.size(), static_cast<unsigned long long>(a.log.d.empty() ? 0 : a.log.d.back()));
}
static Reg r16({"P16", "case = one history played again after unrelated work, interleaved with another one and resumed from a copy of "
    "its state, compared by the digest of all outputs and of the random state after every step; the same cases run in builds and "
    "environments that fill uninitialised memory differently; non-trivial = a distinct state digest", p16_case, 2400, 30000});

// ---------------------------------------------------------------- P04
#if defined(SM_NO_HOOKS) && !defined(SM_ASAN)
static std::atomic<long> g_live{0};
#define SM_COUNT_ALLOC 1
void* operator new(size_t n) { g_live++; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { g_live++; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p) { g_live--; free(p); } }
void operator delete[](void* p) noexcept { if (p) { g_live--; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { g_live--; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { g_live--; free(p); } }
#endif

static uint64_t p04_run(const Scen& sc, Rng r, double margin, bool files) {
    Episode e(sc, r, margin);
    uint64_t h = 0;
    e.play(nullptr, [&](Episode& ep, bool) {
        h = mix(h, digest(ep.so));
        ep.sim.Check(&ep.so, 0, ep.grid, sc.tol);
        ss::CheckSoil(&ep.so, sc.tol);
        if (files && ep.step_no % 7 == 0) {
            if (ep.blade) ep.sim.WriteOutputs(&ep.so, ep.grid, ep.blade.get()); else ep.sim.WriteOutputs(&ep.so, ep.grid, ep.bucket.get());
        }
    });
    return h;
}
static void p04_case() {
    Rng r = G.rng();
    ScenOpts o;
    o.nmin = r.ch(0.3) ? 8 : 9; o.nmax = r.ch(0.2) ? 24 : 14;
    o.steps_min = 5; o.steps_max = 26; o.seed_soil = 0.6;
    o.buffer = r.ch(0.5) ? 2 : -1;
    o.allow_zero_repose = true;
    o.terrain = r.ch(0.25) ? 7 : -1;
    if (G.variant.find("valgrind") != std::string::npos) { o.nmax = 10; o.steps_max = 8; }
    Scen sc = make_scen(r, o);
    if (r.ch(0.3)) { sc.gx = sc.gx * static_cast<float>(r.uf(1, 2)); }
    G.context = sc.text();
    double margin = r.ch(0.5) ? 3 : 4;
    Rng er(r.next());
    bool files = r.ch(0.1);
    G.nontrivial(p04_run(sc, er, margin, files));
    G.count("histories");
#ifdef SM_COUNT_ALLOC
    if (G.variant.find("valgrind") == std::string::npos) {
        p04_run(sc, er, margin, files);
        long l1 = g_live;
        p04_run(sc, er, margin, files);
        long l2 = g_live;
        G.count("allocation balances");
        if (l1 != l2) G.viol("leak", "playing the same history once more leaves %ld more memory blocks allocated", l2 - l1);
    }
#endif
    G.sample("%s margin %.0f", sc.text().c_str(), margin);
}
static Reg r04({"P04", "case = one hostile history (small margins, small buffers, flat and stretched grids, soil at the border), or one case "
    "of another property's workload, run under AddressSanitizer and UndefinedBehaviorSanitizer, with allocation counting, or under "
    "valgrind memcheck; non-trivial = a distinct final state of such a history", p04_case, 1200, 14000});
