// Independent reference models of the documented rules, in double precision.
#pragma once
#include "repo.hpp"

namespace sm {

// Explores every resolution of comparisons that are too close to call.
struct Amb {
    std::vector<char> path; size_t pos = 0; double eps;
    explicit Amb(double e) : eps(e) {}
    // a < b
    bool lt(double a, double b) {
        double d = b - a;
        if (std::abs(d) > eps) return d > 0;
        if (pos == path.size()) path.push_back(0);
        return path[pos++];
    }
    bool next() {   // advances to the next resolution
        while (!path.empty() && path.back() == 1) path.pop_back();
        if (path.empty()) return false;
        path.back() = 1;
        return true;
    }
};
template <typename F> std::set<int> all_outcomes(double eps, F f) {
    std::set<int> out;
    Amb a(eps);
    int guard = 0;
    do { a.pos = 0; out.insert(f(a)); } while (a.next() && ++guard < 64);
    return out;
}

struct CellV {
    double t, b[4], s[4];
    bool B(int l) const { return b[l] != 0 || b[l + 1] != 0; }
    bool S(int l) const { return s[l] != 0 || s[l + 1] != 0; }
};
inline CellV cell(const SO& o, int i, int j) {
    CellV c;
    c.t = o.terrain_[i][j];
    for (int l = 0; l < 4; l++) { c.b[l] = o.body_[l][i][j]; c.s[l] = o.body_soil_[l][i][j]; }
    return c;
}
inline int low_layer(const CellV& c) { return c.b[0] < c.b[2] ? 0 : 2; }
inline std::string show(const CellV& c) {
    char buf[300];
    snprintf(buf, sizeof buf, "terrain %.6g body [%.6g %.6g | %.6g %.6g] soil [%.6g %.6g | %.6g %.6g]", c.t,
             c.b[0], c.b[1], c.b[2], c.b[3], c.s[0], c.s[1], c.s[2], c.s[3]);
    return buf;
}

// Where soil arriving in a cell goes: a two-digit status as documented, with
// the height of the receiving surface and the room above it.
struct Dest { int status; double top; double room; int layer; };   // layer -1 terrain
const double INF_ROOM = 1e9;

inline Dest on_layer(const CellV& c, int l, int tens) {
    bool soil = c.S(l);
    double top = soil ? c.s[l + 1] : c.b[l + 1];
    int digit = l == 2 ? (soil ? 1 : 2) : (soil ? 3 : 4);
    return {tens + digit, top, INF_ROOM, l};
}
inline double min_bottom(const CellV& c) {
    double m = 1e9;
    if (c.B(0)) m = std::min(m, c.b[0]);
    if (c.B(2)) m = std::min(m, c.b[2]);
    return m;
}
inline Dest terrain_dest(const CellV& c, double tol, Amb& a) {
    bool B1 = c.B(0), B3 = c.B(2);
    int tens = B1 && B3 ? 30 : B1 ? 10 : B3 ? 20 : 40;
    if (tens == 40) return {40, c.t, INF_ROOM, -1};
    double bot = min_bottom(c);
    if (a.lt(c.t + tol, bot)) return {tens, c.t, bot - c.t, -1};
    if (tens != 30) return on_layer(c, B1 ? 0 : 2, tens);
    int lo = low_layer(c), hi = 2 - lo;
    if (c.S(lo) && a.lt(c.b[hi], c.s[lo + 1] + tol)) return on_layer(c, hi, tens);
    Dest d = on_layer(c, lo, tens);
    d.room = c.b[hi] - d.top;
    return d;
}
inline Dest body_dest(const CellV& c, double carrier_top, double tol, Amb& a) {
    bool B1 = c.B(0), B3 = c.B(2);
    int tens = B1 && B3 ? 30 : B1 ? 10 : B3 ? 20 : 40;
    if (tens == 40) return {40, c.t, INF_ROOM, -1};
    if (tens != 30) {
        int l = B1 ? 0 : 2;
        if (a.lt(carrier_top + tol, c.b[l]) && a.lt(c.t + tol, c.b[l])) return {tens, c.t, c.b[l] - c.t, -1};
        return on_layer(c, l, tens);
    }
    int lo = low_layer(c), hi = 2 - lo;
    if (a.lt(carrier_top + tol, c.b[hi])) {
        if (!c.S(lo) || a.lt(c.s[lo + 1] + tol, c.b[hi])) {
            Dest d = on_layer(c, lo, tens);
            d.room = c.b[hi] - d.top;
            return d;
        }
    }
    return on_layer(c, hi, tens);
}
inline int check_terrain_model(const CellV& c, double h_min, double tol, Amb& a) {
    if (!a.lt(c.t + tol, h_min)) return 0;
    Dest d = terrain_dest(c, tol, a);
    return a.lt(d.top + tol, h_min) ? d.status : 0;
}
inline int check_body_model(const CellV& c, double carrier_top, double h_min, double tol, Amb& a) {
    Dest d = body_dest(c, carrier_top, tol, a);
    return a.lt(d.top + tol, h_min) ? d.status : 0;
}
// Destination described by a given status (for amount checks)
inline Dest dest_of_status(const CellV& c, int st) {
    int u = st % 10;
    Dest d;
    if (u == 0) {
        double bot = min_bottom(c);
        d = {st, c.t, st / 10 == 4 ? INF_ROOM : bot - c.t, -1};
        return d;
    }
    int l = u <= 2 ? 2 : 0;
    d = on_layer(c, l, st / 10 * 10);
    if (st / 10 == 3 && c.b[l] < c.b[2 - l]) d.room = c.b[2 - l] - d.top;
    return d;
}

// ---- conventions of a state (documented in CheckSoil), in one cell.
// Returns nullptr when fine. `slack` is the tolerance on heights.
inline const char* broken_convention(const CellV& c, double slack) {
    for (int l = 0; l < 4; l += 2) {
        int o = 2 - l;
        if (c.B(l)) {
            if (c.t > c.b[l] + slack) return "terrain above a body layer's bottom";
            if (!(c.b[l] + slack < c.b[l + 1])) return "body layer has no thickness";
        }
        if (c.S(l)) {
            if (c.s[l] > c.s[l + 1] + slack) return "body soil upside down";
            if (!c.B(l)) return "body soil without body";
            if (std::abs(c.s[l] - c.b[l + 1]) > slack) return "body soil not resting on its layer";
            if (c.B(o) && c.b[o + 1] - slack > c.s[l] && c.s[l + 1] - slack > c.b[o])
                return "body soil goes through the other layer";
        }
    }
    if (c.B(0) && c.B(2) && c.b[1] + slack > c.b[2] && c.b[3] + slack > c.b[0]) return "body layers overlap or touch";
    return nullptr;
}

// Largest mismatch between records and columns
struct Ledger { double worst = 0; int l = 0, i = 0, j = 0; double recs = 0, colh = 0; const char* bad = nullptr; };
inline Ledger ledger(const SO& s) {
    Ledger r;
    int nx = NX(s), ny = NY(s);
    std::vector<double> sum(static_cast<size_t>(2 * nx * ny), 0.0);
    for (auto& p : s.body_soil_pos_) {
        if (p.ind != 0 && p.ind != 2) { r.bad = "invalid layer index"; continue; }
        if (p.ii < 0 || p.jj < 0 || p.ii >= nx || p.jj >= ny) { r.bad = "cell outside of the grid"; continue; }
        if (!(p.h_soil > -1e-4)) r.bad = "negative amount";
        sum[(p.ind / 2 * nx + p.ii) * ny + p.jj] += p.h_soil;
    }
    for (int l = 0; l < 2; l++)
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++) {
                double c = col(s, 2 * l, i, j), d = std::abs(c - sum[(l * nx + i) * ny + j]);
                if (!(d <= r.worst)) r = {d, 2 * l, i, j, sum[(l * nx + i) * ny + j], c, r.bad};
            }
    return r;
}
}  // namespace sm
