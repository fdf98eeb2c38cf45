// P18 output files.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include "monitors.hpp"
using namespace sm;

namespace {
const char* DIR_ = "results";
using Dir = std::map<std::string, std::string>;
Dir read_dir() {
    Dir d;
    DIR* h = opendir(DIR_);
    if (!h) return d;
    while (auto* e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::ifstream f(std::string(DIR_) + "/" + n, std::ios::binary);
        std::stringstream b;
        b << f.rdbuf();
        d[n] = b.str();
    }
    closedir(h);
    return d;
}
void put_file(const std::string& n, const std::string& c) { std::ofstream(std::string(DIR_) + "/" + n, std::ios::binary) << c; }
void clean() { for (auto& f : read_dir()) unlink((std::string(DIR_) + "/" + f.first).c_str()); }
std::string numbered(const char* stem, int k) { char b[64]; snprintf(b, sizeof b, "%s_%05d.csv", stem, k); return b; }
int lowest(const Dir& d, const char* stem) { for (int k = 0;; k++) if (!d.count(numbered(stem, k))) return k; }

bool parse(const std::string& name, const std::string& text, std::vector<V3>& out) {
    std::stringstream s(text);
    std::string l;
    if (!std::getline(s, l) || l != "x,y,z") { G.viol("header", "%s starts with \"%s\"", name.c_str(), l.c_str()); return false; }
    if (!text.empty() && text.back() != '\n') { G.viol("truncated", "%s does not end with a complete line", name.c_str()); return false; }
    while (std::getline(s, l)) {
        V3 v;
        char tail;
        if (sscanf(l.c_str(), "%lf,%lf,%lf%c", &v.x, &v.y, &v.z, &tail) != 3) { G.viol("line", "%s has the line \"%s\"", name.c_str(), l.c_str()); return false; }
        out.push_back(v);
    }
    return true;
}
bool close6(double a, double b, double abs) { return std::abs(a - b) <= 6e-6 * std::max(std::abs(a), std::abs(b)) + abs; }

struct Files {
    // Compares the directory before and after one call
    Dir before;
    long ncalls = 0;
    void grid_points(const std::string& name, const std::string& text, const ss::Grid& g, const std::map<std::pair<int, int>, std::vector<double>>& want) {
        std::vector<V3> pts;
        if (!parse(name, text, pts)) return;
        size_t n = 0;
        for (auto& w : want) n += w.second.size();
        if (pts.size() != n) { G.viol("number of points", "%s holds %zu points, expected %zu", name.c_str(), pts.size(), n); return; }
        std::map<std::pair<int, int>, std::vector<double>> have;
        double c = g.cell_size_xy_;
        for (auto& v : pts) {
            int i = static_cast<int>(std::lround(v.x / c)) + g.half_length_x_, j = static_cast<int>(std::lround(v.y / c)) + g.half_length_y_;
            double ex = (i - g.half_length_x_) * c, ey = (j - g.half_length_y_) * c;
            if (!close6(v.x, ex, 1e-3 * c) || !close6(v.y, ey, 1e-3 * c)) {
                G.viol("point position", "%s has a point at (%.8g, %.8g), which is no cell centre", name.c_str(), v.x, v.y);
                return;
            }
            have[{i, j}].push_back(v.z);
        }
        for (auto& w : want) {
            auto h = have[w.first], e = w.second;
            std::sort(h.begin(), h.end()); std::sort(e.begin(), e.end());
            bool ok = h.size() == e.size();
            for (size_t k = 0; ok && k < h.size(); k++) ok = close6(h[k], e[k], 1e-12);
            if (!ok) {
                G.viol("point height", "%s: cell (%d,%d) has %zu points (%.8g...), expected %zu (%.8g...)", name.c_str(), w.first.first, w.first.second, h.size(),
                       h.empty() ? NAN : h[0], e.size(), e.empty() ? NAN : e[0]);
                return;
            }
        }
        G.count("points compared", static_cast<long>(n));
    }
    void verify(const char* call, const SO* s, const ss::Grid* g, const ss::Body* b, bool blade) {
        Dir now = read_dir();
        ncalls++;
        std::set<std::string> want;
        std::string ft, fs, fb;
        if (s) { int k = lowest(before, "terrain"); ft = numbered("terrain", k); fs = numbered("body_soil", k); want = {ft, fs}; }
        if (b) { const char* st = blade ? "blade" : "bucket"; fb = numbered(st, lowest(before, st)); want.insert(fb); }
        for (auto& [n, c] : before) {
            auto it = now.find(n);
            if (it == now.end()) G.viol("file removed", "%s removed %s", call, n.c_str());
            else if (it->second != c && !want.count(n)) G.viol("file changed", "%s changed the existing %s", call, n.c_str());
            else if (it->second != c) G.viol("overwritten", "%s overwrote %s", call, n.c_str());
        }
        for (auto& [n, c] : now)
            if (!before.count(n) && !want.count(n)) G.viol("unexpected file", "%s created %s", call, n.c_str());
        for (auto& n : want) {
            if (!now.count(n)) { G.viol("missing file", "%s did not create %s", call, n.c_str()); continue; }
            G.nontrivial(mix(hash_str(n), hash_str(now[n])));
            G.count("files written");
        }
        if (s && now.count(ft)) {
            std::map<std::pair<int, int>, std::vector<double>> w;
            for (int i = 0; i < NX(*s); i++) for (int j = 0; j < NY(*s); j++) w[{i, j}].push_back(s->terrain_[i][j]);
            grid_points(ft, now[ft], *g, w);
        }
        if (s && now.count(fs)) {
            std::map<std::pair<int, int>, std::vector<double>> w;
            for (int l = 0; l < 4; l += 2)
                for (int i = 0; i < NX(*s); i++) for (int j = 0; j < NY(*s); j++)
                    if (has_soil(*s, l, i, j)) w[{i, j}].push_back(s->body_soil_[l + 1][i][j]);
            if (!s->body_soil_pos_.empty()) { grid_points(fs, now[fs], *g, w); G.count("body soil files with soil"); }
            else {
                std::vector<V3> pts;
                if (parse(fs, now[fs], pts)) {
                    double c = g->cell_size_xy_;
                    bool ok = pts.size() == 1;
                    if (ok) {       // a single point on a corner of the grid
                        ok = close6(std::abs(pts[0].x), g->half_length_x_ * c, 1e-3 * c) && close6(std::abs(pts[0].y), g->half_length_y_ * c, 1e-3 * c) &&
                            std::abs(pts[0].z) <= (g->half_length_z_ + 1) * static_cast<double>(g->cell_size_z_) * 1.00001;
                    }
                    if (!ok) G.viol("dummy point", "%s: %zu points although no soil rests on the body", fs.c_str(), pts.size());
                    G.count("body soil files with the dummy point");
                }
            }
        }
        if (b && now.count(fb)) {
            std::vector<V3> pts;
            if (parse(fb, now[fb], pts)) {
                Corners c = corners(b->pos_, b->ori_, *b);
                std::vector<V3> e = blade ? std::vector<V3>{c.br, c.bl, c.jl, c.jr, c.jr, c.jl, c.tl, c.tr}
                                          : std::vector<V3>{c.br, c.tr, c.jr, c.jr, c.jl, c.bl, c.br, c.br, c.tr, c.tl, c.bl, c.bl, c.tl, c.jl};
                if (pts.size() != e.size()) G.viol("corner count", "%s has %zu corners, expected %zu", fb.c_str(), pts.size(), e.size());
                else {
                    double sz = norm(v3(b->pos_)) + 2 * (norm(v3(b->j_pos_init_)) + norm(v3(b->b_pos_init_)) + norm(v3(b->t_pos_init_)) + b->width_);
                    auto& q = b->ori_;  // a body that has never been moved has no orientation yet
                    bool placed = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] > 0;
                    for (size_t k = 0; placed && k < e.size(); k++)
                        if (!close6(pts[k].x, e[k].x, 2e-6 * sz) || !close6(pts[k].y, e[k].y, 2e-6 * sz) || !close6(pts[k].z, e[k].z, 2e-6 * sz)) {
                            G.viol("corner", "%s: corner %zu is (%.7g,%.7g,%.7g), expected (%.7g,%.7g,%.7g)", fb.c_str(), k, pts[k].x, pts[k].y, pts[k].z, e[k].x, e[k].y, e[k].z);
                            break;
                        }
                    G.count("bodies compared");
                }
            }
        }
        before = now;
    }
};
}  // namespace

static void p18_case() {
    Rng r = G.rng();
    struct stat st;
    if (stat(DIR_, &st)) { mkdir(DIR_, 0755); }
    clean();
    ScenOpts o;
    o.nmin = 9; o.nmax = 13; o.steps_min = 3; o.steps_max = 9; o.seed_soil = 0.6;
    Scen sc = make_scen(r, o);
    Episode e(sc, r);
    G.context = sc.text();
    // files left by earlier runs, with gaps
    if (r.ch(0.8)) {
        int n = r.ri(0, 14);
        bool big = r.ch(0.03);
        for (int k = 0; k < (big ? 1003 : n); k++) {
            if (big ? k != 1001 : r.ch(0.75)) {
                std::string c = "old " + std::to_string(r.next());
                put_file(numbered("terrain", k), c); put_file(numbered("body_soil", k), c + "s");
            }
        }
        for (int k = 0; k < n; k++) {
            if (r.ch(0.7)) put_file(numbered("bucket", k), "old bucket");
            if (r.ch(0.7)) put_file(numbered("blade", k), "");
        }
        // a run of files that ends where the number of digits changes, with a gap before or after its end
        if (r.ch(0.2)) {
            static const int END[] = {10, 100, 1000, 10000};
            int e10 = END[r.ch(0.004) ? 3 : r.ch(0.06) ? 2 : r.ri(0, 1)] + r.ri(-2, 2), gap = e10 + r.ri(-3, 3);
            static const char* STEM[] = {"bucket", "blade", "terrain"};
            int which = e10 > 5000 ? 2 : r.ri(0, 2);
            for (int k = 0; k < e10 + 4; k++) {
                if (k == gap || (k > e10 && r.ch(0.5))) continue;
                if (which < 2) put_file(numbered(sc.blade ? "blade" : "bucket", k), "run");
                else { put_file(numbered("terrain", k), "run"); put_file(numbered("body_soil", k), "run"); }
            }
            G.count("runs of files up to a change of digits");
        }
        if (r.ch(0.3)) put_file("terrain_notes.csv", "keep");
        if (r.ch(0.3)) put_file("terrain_0000.csv", "keep");
        if (r.ch(0.3)) put_file("bucket_100000.csv", "keep");
    }
    Files f;
    f.before = read_dir();
    auto body_write = [&] { if (e.blade) ss::WriteBody(e.blade.get()); else ss::WriteBody(e.bucket.get()); };
    e.play(nullptr, [&](Episode& ep, bool) {
        if (!r.ch(0.6)) return;
        uint64_t d = digest(ep.so);
        VF p0 = ep.body()->pos_, q0 = ep.body()->ori_;
        int kind = r.ri(0, 3);
        if (kind == 0) { ss::WriteSoil(&ep.so, ep.grid); f.verify("WriteSoil", &ep.so, &ep.grid, nullptr, false); }
        else if (kind == 1) { body_write(); f.verify("WriteBody", nullptr, nullptr, ep.body(), sc.blade); }
        else {
            if (ep.blade) ep.sim.WriteOutputs(&ep.so, ep.grid, ep.blade.get()); else ep.sim.WriteOutputs(&ep.so, ep.grid, ep.bucket.get());
            f.verify("WriteOutputs", &ep.so, &ep.grid, ep.body(), sc.blade);
        }
        if (r.ch(0.3)) {            // soil anywhere, up to the corners of the grid
            SO s(ep.grid);
            for (auto& row : s.terrain_) for (float& h : row) h = static_cast<float>(r.uf(-3, 3) * std::pow(10.0, r.ri(-3, 3)));
            int n = r.ri(0, 12);
            for (int k = 0; k < n; k++) {
                int i = r.ch(0.4) ? (r.ch(0.5) ? 0 : NX(s) - 1) : r.ri(0, NX(s) - 1), j = r.ch(0.4) ? (r.ch(0.5) ? 0 : NY(s) - 1) : r.ri(0, NY(s) - 1), l = r.ch(0.5) ? 0 : 2;
                float lo = static_cast<float>(r.uf(-1, 1)), h = static_cast<float>(r.uf(0.01, 2));
                if (r.ch(0.2)) lo = 0;
                if (r.ch(0.2)) h = -lo;         // the top of the column is at height zero
                if (h <= 0) continue;
                s.body_soil_[l][i][j] = lo; s.body_soil_[l + 1][i][j] = lo + h;
                s.body_soil_pos_.push_back(ss::body_soil{l, i, j, 0, 0, 0, h});
            }
            uint64_t ds = digest(s);
            ss::WriteSoil(&s, ep.grid);
            G.count("synthetic states written");
            f.verify("WriteSoil of a synthetic state", &s, &ep.grid, nullptr, false);
            if (digest(s) != ds) G.viol("state changed", "writing changed the state");
        }
        if (digest(ep.so) != d || ep.body()->pos_ != p0 || ep.body()->ori_ != q0) G.viol("state changed", "writing changed the state");
        if (r.ch(0.1) && !f.before.empty()) {       // the user removes a set of files
            int k = r.ri(0, 12);
            for (const char* stem : {"terrain", "body_soil"}) unlink((std::string(DIR_) + "/" + numbered(stem, k)).c_str());
            f.before = read_dir();
        }
    });
    G.count("write calls", f.ncalls);
    G.sample("%s: %d write calls, %zu files in the folder at the end", sc.text().c_str(), static_cast<int>(f.ncalls), f.before.size());
    clean();
}
static Reg r18({"P18", "case = one short history in a folder with left-over files and gaps, with several write calls; the folder is "
    "compared before and after every call and the new files are parsed; non-trivial = a written file, by name and content",
    p18_case, 3000, 30000});
