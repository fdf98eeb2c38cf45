// Access to the code under test: headers, state helpers, log capture.
#pragma once
#include <glog/logging.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <numbers>
#include <random>
#include <string>
#include <tuple>
#include <vector>
#include "soil_simulator/types.hpp"
#include "soil_simulator/soil_dynamics.hpp"
#include "soil_simulator/body_pos.hpp"
#include "soil_simulator/body_soil.hpp"
#include "soil_simulator/intersecting_cells.hpp"
#include "soil_simulator/relax.hpp"
#include "soil_simulator/utils.hpp"
#include "core.hpp"

namespace sm {
namespace ss = soil_simulator;
using SO = ss::SimOut;
using VF = std::vector<float>;
using Rec = ss::body_soil;

// ---- log capture
enum WarnKind { W_LOSS, W_MOVE, W_BSOIL, W_VOLUME, W_OTHER, W_N };
struct WarnLog {
    long n[W_N] = {0, 0, 0, 0, 0};
    long total() const { long t = 0; for (long x : n) t += x; return t; }
    std::string last;
};
extern WarnLog W;
void init_logging(const char* argv0);

// ---- state helpers
inline bool same_bits(const std::vector<std::vector<float>>& a, const std::vector<std::vector<float>>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].size() != b[i].size()) return false;
        if (a[i].size() && memcmp(a[i].data(), b[i].data(), a[i].size() * sizeof(float))) return false;
    }
    return true;
}
inline bool same_bits(const std::vector<std::vector<std::vector<float>>>& a,
                      const std::vector<std::vector<std::vector<float>>>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!same_bits(a[i], b[i])) return false;
    return true;
}
inline bool same_rec(const Rec& a, const Rec& b) {
    return a.ind == b.ind && a.ii == b.ii && a.jj == b.jj &&
        !memcmp(&a.x_b, &b.x_b, 4) && !memcmp(&a.y_b, &b.y_b, 4) &&
        !memcmp(&a.z_b, &b.z_b, 4) && !memcmp(&a.h_soil, &b.h_soil, 4);
}
inline bool same_recs(const std::vector<Rec>& a, const std::vector<Rec>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!same_rec(a[i], b[i])) return false;
    return true;
}
inline bool same_soil(const SO& a, const SO& b) {
    return same_bits(a.terrain_, b.terrain_) && same_bits(a.body_soil_, b.body_soil_) &&
        same_recs(a.body_soil_pos_, b.body_soil_pos_);
}
inline bool same_areas(const SO& a, const SO& b) {
    return !memcmp(a.body_area_, b.body_area_, sizeof a.body_area_) &&
        !memcmp(a.relax_area_, b.relax_area_, sizeof a.relax_area_) &&
        !memcmp(a.impact_area_, b.impact_area_, sizeof a.impact_area_);
}
inline bool same_all(const SO& a, const SO& b) {
    return same_soil(a, b) && same_bits(a.body_, b.body_) && same_areas(a, b) &&
        a.equilibrium_ == b.equilibrium_;
}
inline uint64_t digest(const SO& s, bool with_order = true) {
    uint64_t h = 1469598103934665603ull;
    for (auto& r : s.terrain_) h = hash_bytes(r.data(), r.size() * 4, h);
    for (auto& l : s.body_) for (auto& r : l) h = hash_bytes(r.data(), r.size() * 4, h);
    for (auto& l : s.body_soil_) for (auto& r : l) h = hash_bytes(r.data(), r.size() * 4, h);
    for (auto& r : s.body_soil_pos_) {
        h = hash_bytes(&r.ind, 4, h); h = hash_bytes(&r.ii, 4, h); h = hash_bytes(&r.jj, 4, h);
        h = hash_bytes(&r.x_b, 4, h); h = hash_bytes(&r.y_b, 4, h); h = hash_bytes(&r.z_b, 4, h);
        h = hash_bytes(&r.h_soil, 4, h);
    }
    h = hash_bytes(s.body_area_, sizeof s.body_area_, h);
    h = hash_bytes(s.relax_area_, sizeof s.relax_area_, h);
    h = hash_bytes(s.impact_area_, sizeof s.impact_area_, h);
    h = mix(h, s.equilibrium_);
    return h;
}
inline int NX(const SO& s) { return static_cast<int>(s.terrain_.size()); }
inline int NY(const SO& s) { return static_cast<int>(s.terrain_[0].size()); }
inline bool has_body(const SO& s, int l, int i, int j) {   // l = 0 or 2
    return s.body_[l][i][j] != 0.0f || s.body_[l + 1][i][j] != 0.0f;
}
inline bool has_soil(const SO& s, int l, int i, int j) {
    return s.body_soil_[l][i][j] != 0.0f || s.body_soil_[l + 1][i][j] != 0.0f;
}
inline double col(const SO& s, int l, int i, int j) {
    return static_cast<double>(s.body_soil_[l + 1][i][j]) - s.body_soil_[l][i][j];
}
inline long volume_of(const SO& s, double cz) {      // in cells, column by column
    long v = 0;
    for (int i = 0; i < NX(s); i++)
        for (int j = 0; j < NY(s); j++) {
            v += std::lround(s.terrain_[i][j] / cz);
            for (int l = 0; l < 4; l += 2) v += std::lround(col(s, l, i, j) / cz);
        }
    return v;
}
inline double total_soil(const SO& s) {
    double t = 0;
    for (auto& r : s.terrain_) for (float h : r) t += h;
    for (int l = 0; l < 4; l += 2)
        for (size_t i = 0; i < s.terrain_.size(); i++)
            for (size_t j = 0; j < s.terrain_[0].size(); j++) t += col(s, l, i, j);
    return t;
}
inline double total_recs(const SO& s) { double t = 0; for (auto& r : s.body_soil_pos_) t += r.h_soil; return t; }
inline double dh_max_of(const ss::Grid& g, const ss::SimParam& p) {
    float slope = std::tan(p.repose_angle_);
    float dh = g.cell_size_xy_ * slope;
    return static_cast<float>(g.cell_size_z_ * round(dh / g.cell_size_z_));
}

// ---- independent pose maths (double precision)
struct V3 { double x = 0, y = 0, z = 0; };
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(double k, V3 a) { return {k * a.x, k * a.y, k * a.z}; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double norm(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 v3(const VF& v) { return {v[0], v[1], v[2]}; }
// Rotation matrix of q^-1 v q, i.e. the transpose of the usual matrix of q
inline V3 rot(const VF& q, V3 v) {
    double w = q[0], x = -static_cast<double>(q[1]), y = -static_cast<double>(q[2]), z = -static_cast<double>(q[3]);
    double n = w * w + x * x + y * y + z * z;
    V3 u{x, y, z};
    V3 t = 2.0 * cross(u, v);
    return v + (1.0 / n) * (w * t + cross(u, t));
}
inline V3 irot(const VF& q, V3 v) {
    VF c = {q[0], -q[1], -q[2], -q[3]};
    return rot(c, v);
}
struct Corners { V3 jr, jl, br, bl, tr, tl; };
inline Corners corners(const VF& pos, const VF& ori, const ss::Body& b) {
    V3 j = v3(b.j_pos_init_), bb = v3(b.b_pos_init_), t = v3(b.t_pos_init_);
    V3 n = cross(bb - j, t - j);
    n = (1.0 / norm(n)) * n;
    V3 off = (0.5 * b.width_) * n;
    V3 p = v3(pos);
    auto f = [&](V3 a) { return rot(ori, a) + p; };
    return {f(j + off), f(j - off), f(bb + off), f(bb - off), f(t + off), f(t - off)};
}
inline std::array<V3, 6> corner_arr(const Corners& c) { return {c.jr, c.jl, c.br, c.bl, c.tr, c.tl}; }
inline V3 cell_pos(const ss::Grid& g, int i, int j, double z) {
    return {(i - g.half_length_x_) * static_cast<double>(g.cell_size_xy_),
            (j - g.half_length_y_) * static_cast<double>(g.cell_size_xy_), z};
}
}  // namespace sm
