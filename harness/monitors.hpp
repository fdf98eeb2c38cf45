// Helpers shared by several properties.
#pragma once
#include "scen.hpp"

namespace sm {
// One transport of the soil of a patch: wide grid, layers in most cells, soil away from the border.
struct Transport {
    std::unique_ptr<Patch> p;
    VF pos, ori;     // new pose
};
const int DX8[8] = {1, -1, 0, 0, 1, 1, -1, -1}, DY8[8] = {0, 0, 1, -1, 1, -1, 1, -1};      // lateral directions
Transport make_transport(Rng& r, bool fractions = false);
std::unique_ptr<Patch> make_squeeze(Rng& r, int nsrc);
std::unique_ptr<Patch> make_cut(Rng& r, int nsrc, int extra);

struct RecKey {
    int ind, ii, jj; float x, y, z;
    bool operator<(const RecKey& o) const {
        return std::tie(ind, ii, jj, x, y, z) < std::tie(o.ind, o.ii, o.jj, o.x, o.y, o.z);
    }
};
inline RecKey key_of(const Rec& r) { return {r.ind, r.ii, r.jj, r.x_b, r.y_b, r.z_b}; }
inline std::set<RecKey> rec_keys(const SO& s) {
    std::set<RecKey> k;
    for (auto& r : s.body_soil_pos_) k.insert(key_of(r));
    return k;
}
// Distance (metres) between a record's posed point and the top of the layer in its cell
inline double pose_gap(const SO& s, const ss::Grid& g, const ss::Body& b, const Rec& r) {
    V3 p = rot(b.ori_, {r.x_b, r.y_b, r.z_b}) + v3(b.pos_);
    V3 c = cell_pos(g, r.ii, r.jj, s.body_[r.ind + 1][r.ii][r.jj]);
    return norm(p - c);
}
inline double grid_reach(const ss::Grid& g) {
    return std::max({g.half_length_x_ * 1.0 * g.cell_size_xy_, g.half_length_y_ * 1.0 * g.cell_size_xy_,
                     g.half_length_z_ * 1.0 * g.cell_size_z_});
}
}  // namespace sm
