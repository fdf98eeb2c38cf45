// Harness entry point: runs a range of cases of one property's workload and
// writes what was observed as JSON.
#include <fcntl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <chrono>
#include <cstdlib>
#include <fstream>
#include "hooks.hpp"

std::mt19937 soil_simulator::rng;

namespace sm {
Ctx G;
WarnLog W;
std::vector<PropDef>& props() { static std::vector<PropDef> v; return v; }

struct Sink : google::LogSink {
    void send(google::LogSeverity severity, const char*, const char*, int, const google::LogMessageTime&,
              const char* msg, size_t len) override {
        if (severity < google::GLOG_WARNING) return;
        std::string m(msg, len);
        W.last = m;
        auto has = [&](const char* s) { return m.find(s) != std::string::npos; };
        if (has("Not all soil intersecting")) W.n[W_LOSS]++;
        else if (has("Movement made by the body")) W.n[W_MOVE]++;
        else if (has("Body soil could not be updated")) W.n[W_BSOIL]++;
        else if (has("Volume")) W.n[W_VOLUME]++;
        else W.n[W_OTHER]++;
    }
};
void init_logging(const char* argv0) {
    google::InitGoogleLogging(argv0);
    FLAGS_logtostderr = false;
    FLAGS_stderrthreshold = 4;
    FLAGS_minloglevel = 1;
    for (int s = 0; s < 4; s++) google::SetLogDestination(s, "");
    google::AddLogSink(new Sink());
}
}  // namespace sm
using namespace sm;

static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}

int main(int argc, char** argv) {
    std::string out, progress;
    long from = 0, to = 0, stride = 1;
    double deadline = 1e9;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") G.prop = val();
        else if (a == "--seed") G.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--from") from = atol(val().c_str());
        else if (a == "--to") to = atol(val().c_str());
        else if (a == "--stride") stride = atol(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--progress") progress = val();
        else if (a == "--tier") G.tier = val();
        else if (a == "--variant") G.variant = val();
        else if (a == "--deadline") deadline = atof(val().c_str());
        else if (a == "--list") list = true;
    }
    if (list) {
        for (auto& p : props()) printf("%s\t%ld\t%ld\t%s\n", p.id, p.quick_cases, p.thorough_cases, p.rule);
        return 0;
    }
    init_logging(argv[0]);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    const PropDef* d = nullptr;
    for (auto& p : props()) if (G.prop == p.id) d = &p;
    if (!d) { fprintf(stderr, "unknown property %s\n", G.prop.c_str()); return 2; }
    if (to == 0) to = G.tier == "thorough" ? d->thorough_cases : d->quick_cases;
    int pfd = progress.empty() ? -1 : open(progress.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    long done = 0;
    std::vector<std::pair<int64_t, uint64_t>> traces;   // digests that other builds must reproduce
    for (long c = from; c < to; c += stride) {
        if (elapsed() > deadline) break;
        G.case_idx = c; G.viol_case = 0; G.context.clear(); G.trace = 0;
        if (pfd >= 0) { int64_t v = c; if (pwrite(pfd, &v, 8, 0) != 8) return 2; }
        H.clear(); W = WarnLog();
        try {
            d->run_case();
        } catch (const std::exception& e) {
            G.viol("exception", "unexpected exception: %s", e.what());
        }
        if (G.trace) traces.push_back({c, G.trace});
        done++;
        if (G.viol_total > 200) break;
    }
    H.clear();
    std::string js = "{\"prop\":\"" + G.prop + "\",\"cases\":" + std::to_string(done) + ",\"viol_total\":" +
        std::to_string(G.viol_total) + ",\"hooks\":" + (hooks_available() ? "true" : "false") +
        ",\"rule\":\"" + esc(d->rule) + "\",\"wall\":" + std::to_string(elapsed()) + ",\"counters\":{";
    bool first = true;
    for (auto& [k, v] : G.cnt) { js += (first ? "" : ",") + ("\"" + esc(k) + "\":") + std::to_string(v); first = false; }
    js += "},\"hits\":{"; first = true;
    for (auto& [k, v] : H.hits) { js += (first ? "" : ",") + ("\"" + esc(k) + "\":") + std::to_string(v); first = false; }
    js += "},\"samples\":["; first = true;
    for (auto& s : G.samples) { js += (first ? "\"" : ",\"") + esc(s) + "\""; first = false; }
    js += "],\"viols\":["; first = true;
    for (auto& v : G.viols) {
        js += (first ? "" : ",") + ("{\"key\":\"" + esc(v.key)) + "\",\"case\":" + std::to_string(v.c) + ",\"msg\":\"" +
            esc(v.msg) + "\"}";
        first = false;
    }
    js += "],\"distinct\":" + std::to_string(G.distinct.size()) + "}\n";
    if (out.empty()) fputs(js.c_str(), stdout);
    else {
        std::ofstream f(out + ".hash", std::ios::binary);
        for (uint64_t h : G.distinct) f.write(reinterpret_cast<const char*>(&h), 8);
        f.close();
        std::ofstream t(out + ".trace");
        for (auto& x : traces) t << x.first << ' ' << x.second << '\n';
        t.close();
        std::string tmp = out + ".tmp";
        std::ofstream o(tmp); o << js; o.close();
        rename(tmp.c_str(), out.c_str());
    }
    fflush(stdout);
    _exit(0);   // no static destruction: leak accounting is done per case
}
