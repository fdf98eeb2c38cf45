// Scenario generator: grids, bodies, terrains, parameters and motions, and the
// episode runner that plays them through SoilDynamics::Step.
#pragma once
#include "hooks.hpp"
#include "model.hpp"

namespace sm {

struct Scen {
    float gx, gy, gz, cxy, cz;
    bool blade;
    VF o, j, b, t;
    float width;
    float repose; int iters, buffer;
    float tol;
    int terrain_kind, program, steps;
    unsigned rngseed;
    int quat_mode;          // 0 unit, 1 scaled, 2 negated
    bool seed_soil;
    double lift;            // initial height offset, cells
    std::string text() const;
};

struct ScenOpts {
    int nmin = 10, nmax = 20;          // half length in cells
    int steps_min = 12, steps_max = 45;
    int program = -1;                  // motion program, -1 random
    int terrain = -1;
    bool big_steps = true;             // allow moves larger than two cells
    int iters = -1, buffer = -1;
    int blade = -1;
    double seed_soil = 0.5;
    double p_default_grid = 0.0;       // chance to use the documented default grid
    double repose_lo = 0.0, repose_hi = 1.5;
    bool misaligned = true;
    bool allow_zero_repose = false;
};

float any_scale(Rng& r, float c);
float fit_tol(double cxy, double cz, float usual);
Scen make_scen(Rng& r, const ScenOpts& o = ScenOpts());

struct Episode {
    Scen sc;
    ss::Grid grid;
    std::unique_ptr<ss::Bucket> bucket;
    std::unique_ptr<ss::Blade> blade;
    ss::SimParam param;
    SO so;
    Rng r;
    ss::SoilDynamics sim;
    // motion state
    VF pos, ori;
    V3 vel, axis;
    double rotw = 0, stepf = 1;
    int seg_left = 0, seg_no = 0, step_no = 0;
    bool step_returned = false;
    double margin = 4;       // cells kept free between the body and the border of the grid

    explicit Episode(const Scen& s, Rng rr, double margin_cells = 4);
    Episode(const Episode&) = delete;
    ss::Body* body() { return blade ? static_cast<ss::Body*>(blade.get()) : bucket.get(); }
    std::vector<std::string> kinds;
    VF used_ori;                                // the quaternion handed to the last Step
    bool do_step(const VF& p, const VF& q);     // one call of Step
    bool propose();                             // computes the next pose (pos, ori)
    bool in_range(const VF& p, const VF& q);
    double max_disp(const VF& p, const VF& q);  // corner displacement since the last acting step, metres
    void init_terrain();
    void add_body_soil(double density);         // piles consistent soil on the body
    // plays the whole scenario; returns the number of acting steps
    int play(const std::function<void(Episode&)>& before = nullptr,
             const std::function<void(Episode&, bool)>& after = nullptr);
};

VF quat_mul(const VF& a, const VF& b);
VF axis_quat(V3 axis, double ang);      // rotation such that rot(q, v) turns v by ang about axis
VF random_quat(Rng& r);

// Pushes one parcel on a layer, keeping records and columns consistent.
void put_soil(SO& so, const ss::Grid& g, const ss::Body& b, const VF& pos, const VF& ori, int l, int i, int j, double h,
              bool proper_point = true);

// ---- synthetic local states
struct Patch {
    std::unique_ptr<ss::Grid> grid;
    std::unique_ptr<ss::Bucket> body;
    SO so;
    float tol = 1e-5f;
    double cz, cxy;
};
struct PatchOpts {
    int nmin = 3, nmax = 4;
    double p_none = 0.3, p_both = 0.35;
    double p_touch = 0.5;
    int trange = 8;
    double p_soil = 0.6;
    bool overlap = false;    // allow terrain above the body / soil through the upper layer
    bool border_free = false;
    double p_upper_pen = 0.0;
    bool dyadic = false;     // cell sizes are powers of two: sums of whole cells are exact
    double p_frac = 0.0;     // chance that the layers of a cell are not at whole cells
};
std::unique_ptr<Patch> make_patch(Rng& r, const PatchOpts& o = PatchOpts());
void fill_cell(Rng& r, Patch& p, int i, int j, const PatchOpts& o, int base);
}  // namespace sm
