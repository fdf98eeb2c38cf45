#include <dlfcn.h>
#include "hooks.hpp"

namespace sm { Hooks H; }
using namespace sm;

#ifdef SM_NO_HOOKS
bool sm::hooks_available() { return false; }
#else
bool sm::hooks_available() { return true; }

template <typename F> static F real_of(const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    return reinterpret_cast<F>(p);
}
#define REAL(name) static auto real = real_of<decltype(&name)>(SYM)
using VVI = std::vector<std::vector<int>>;

// names of the hooked functions; run_check.py replaces those that the library exports under another name because a
// parameter is passed by reference to const instead of by value (the calling convention is the same)
#ifndef SYM_mov
#define SYM_mov "_ZN14soil_simulator17CheckBodyMovementESt6vectorIfSaIfEES2_NS_4GridEPNS_4BodyE"
#endif
#ifndef SYM_pos1
#define SYM_pos1 "_ZN14soil_simulator11CalcBodyPosEPNS_6SimOutESt6vectorIfSaIfEES4_NS_4GridEPNS_6BucketENS_8SimParamEf"
#endif
#ifndef SYM_pos2
#define SYM_pos2 "_ZN14soil_simulator11CalcBodyPosEPNS_6SimOutESt6vectorIfSaIfEES4_NS_4GridEPNS_5BladeENS_8SimParamEf"
#endif
#ifndef SYM_inc
#define SYM_inc "_ZN14soil_simulator17IncludeNewBodyPosEPNS_6SimOutEiifff"
#endif
#ifndef SYM_ubs
#define SYM_ubs "_ZN14soil_simulator14UpdateBodySoilEPNS_6SimOutESt6vectorIfSaIfEES4_NS_4GridEPNS_4BodyEf"
#endif
#ifndef SYM_mic
#define SYM_mic "_ZN14soil_simulator21MoveIntersectingCellsEPNS_6SimOutENS_4GridEPNS_4BodyEf"
#endif
#ifndef SYM_mibs
#define SYM_mibs "_ZN14soil_simulator24MoveIntersectingBodySoilEPNS_6SimOutENS_4GridEPNS_4BodyEf"
#endif
#ifndef SYM_mib
#define SYM_mib "_ZN14soil_simulator20MoveIntersectingBodyEPNS_6SimOutEf"
#endif
#ifndef SYM_rt
#define SYM_rt "_ZN14soil_simulator12RelaxTerrainEPNS_6SimOutENS_4GridEPNS_4BodyENS_8SimParamEf"
#endif
#ifndef SYM_rbs
#define SYM_rbs "_ZN14soil_simulator13RelaxBodySoilEPNS_6SimOutENS_4GridEPNS_4BodyENS_8SimParamEf"
#endif
#ifndef SYM_loc
#define SYM_loc "_ZN14soil_simulator25LocateUnstableTerrainCellEPNS_6SimOutEff"
#endif
#ifndef SYM_cut
#define SYM_cut "_ZN14soil_simulator24CheckUnstableTerrainCellEPNS_6SimOutEiiff"
#endif
#ifndef SYM_cub
#define SYM_cub "_ZN14soil_simulator21CheckUnstableBodyCellEPNS_6SimOutEiiiiiff"
#endif
#ifndef SYM_rut
#define SYM_rut "_ZN14soil_simulator24RelaxUnstableTerrainCellEPNS_6SimOutEifiiiiNS_4GridEPNS_4BodyEf"
#endif
#ifndef SYM_rub
#define SYM_rub "_ZN14soil_simulator21RelaxUnstableBodyCellEPNS_6SimOutEiPSt6vectorINS_9body_soilESaIS3_EEfiiiiiiNS_4GridEPNS_4BodyEf"
#endif
#ifndef SYM_noise
#define SYM_noise "_ZN14soil_simulator13simplex_noiseEffSt6vectorIiSaIiEE"
#endif

#define SYM SYM_mov
bool w_mov(VF pos, VF ori, ss::Grid g, ss::Body* b) asm(SYM);
bool w_mov(VF pos, VF ori, ss::Grid g, ss::Body* b) {
    REAL(w_mov); static long* hc = &H.hits["CheckBodyMovement"]; ++*hc;
    if (!H.check_movement) return real(pos, ori, g, b);
    bool r = false;
    auto f = H.check_movement;
    f(pos, ori, g, b, r, [&] { r = real(pos, ori, g, b); });
    return r;
}
#undef SYM
#define SYM SYM_pos1
void w_pos1(SO* s, VF pos, VF ori, ss::Grid g, ss::Bucket* b, ss::SimParam p, float tol) asm(SYM);
void w_pos1(SO* s, VF pos, VF ori, ss::Grid g, ss::Bucket* b, ss::SimParam p, float tol) {
    REAL(w_pos1); static long* hc = &H.hits["CalcBodyPos"]; ++*hc;
    if (!H.calc_body_pos) return real(s, pos, ori, g, b, p, tol);
    H.calc_body_pos(s, pos, ori, g, b, false, p, tol, [&] { real(s, pos, ori, g, b, p, tol); });
}
#undef SYM
#define SYM SYM_pos2
void w_pos2(SO* s, VF pos, VF ori, ss::Grid g, ss::Blade* b, ss::SimParam p, float tol) asm(SYM);
void w_pos2(SO* s, VF pos, VF ori, ss::Grid g, ss::Blade* b, ss::SimParam p, float tol) {
    REAL(w_pos2); static long* hc = &H.hits["CalcBodyPos"]; ++*hc;
    if (!H.calc_body_pos) return real(s, pos, ori, g, b, p, tol);
    H.calc_body_pos(s, pos, ori, g, b, true, p, tol, [&] { real(s, pos, ori, g, b, p, tol); });
}
#undef SYM
#define SYM SYM_inc
void w_inc(SO* s, int i, int j, float a, float b, float tol) asm(SYM);
void w_inc(SO* s, int i, int j, float a, float b, float tol) {
    REAL(w_inc); static long* hc = &H.hits["IncludeNewBodyPos"]; ++*hc;
    if (!H.include_pos) return real(s, i, j, a, b, tol);
    H.include_pos(s, i, j, a, b, tol, [&] { real(s, i, j, a, b, tol); });
}
#undef SYM
#define SYM SYM_ubs
void w_ubs(SO* s, VF pos, VF ori, ss::Grid g, ss::Body* b, float tol) asm(SYM);
void w_ubs(SO* s, VF pos, VF ori, ss::Grid g, ss::Body* b, float tol) {
    REAL(w_ubs); static long* hc = &H.hits["UpdateBodySoil"]; ++*hc;
    if (!H.update_body_soil) return real(s, pos, ori, g, b, tol);
    H.update_body_soil(s, pos, ori, g, b, tol, [&] { real(s, pos, ori, g, b, tol); });
}
#undef SYM
#define SYM SYM_mic
void w_mic(SO* s, ss::Grid g, ss::Body* b, float tol) asm(SYM);
void w_mic(SO* s, ss::Grid g, ss::Body* b, float tol) {
    REAL(w_mic); static long* hc = &H.hits["MoveIntersectingCells"]; ++*hc;
    if (!H.move_cells) return real(s, g, b, tol);
    H.move_cells(s, g, b, tol, [&] { real(s, g, b, tol); });
}
#undef SYM
#define SYM SYM_mibs
void w_mibs(SO* s, ss::Grid g, ss::Body* b, float tol) asm(SYM);
void w_mibs(SO* s, ss::Grid g, ss::Body* b, float tol) {
    REAL(w_mibs); static long* hc = &H.hits["MoveIntersectingBodySoil"]; ++*hc;
    if (!H.move_body_soil_all) return real(s, g, b, tol);
    H.move_body_soil_all(s, g, b, tol, [&] { real(s, g, b, tol); });
}
#undef SYM
#define SYM SYM_mib
void w_mib(SO* s, float tol) asm(SYM);
void w_mib(SO* s, float tol) {
    REAL(w_mib); static long* hc = &H.hits["MoveIntersectingBody"]; ++*hc;
    if (!H.move_body_all) return real(s, tol);
    H.move_body_all(s, tol, [&] { real(s, tol); });
}
#undef SYM
#define SYM SYM_rt
void w_rt(SO* s, ss::Grid g, ss::Body* b, ss::SimParam p, float tol) asm(SYM);
void w_rt(SO* s, ss::Grid g, ss::Body* b, ss::SimParam p, float tol) {
    REAL(w_rt); static long* hc = &H.hits["RelaxTerrain"]; ++*hc;
    if (!H.relax_terrain) return real(s, g, b, p, tol);
    H.relax_terrain(s, g, b, p, tol, [&] { real(s, g, b, p, tol); });
}
#undef SYM
#define SYM SYM_rbs
void w_rbs(SO* s, ss::Grid g, ss::Body* b, ss::SimParam p, float tol) asm(SYM);
void w_rbs(SO* s, ss::Grid g, ss::Body* b, ss::SimParam p, float tol) {
    REAL(w_rbs); static long* hc = &H.hits["RelaxBodySoil"]; ++*hc;
    if (!H.relax_body_soil) return real(s, g, b, p, tol);
    H.relax_body_soil(s, g, b, p, tol, [&] { real(s, g, b, p, tol); });
}
#undef SYM
#define SYM SYM_loc
VVI w_loc(SO* s, float dh, float tol) asm(SYM);
VVI w_loc(SO* s, float dh, float tol) {
    REAL(w_loc); static long* hc = &H.hits["LocateUnstableTerrainCell"]; ++*hc;
    if (!H.locate_unstable) return real(s, dh, tol);
    VVI r;
    H.locate_unstable(s, dh, tol, r, [&] { r = real(s, dh, tol); });
    return r;
}
#undef SYM
#define SYM SYM_cut
int w_cut(SO* s, int i, int j, float h, float tol) asm(SYM);
int w_cut(SO* s, int i, int j, float h, float tol) {
    REAL(w_cut); static long* hc = &H.hits["CheckUnstableTerrainCell"]; ++*hc;
    if (!H.check_terrain) return real(s, i, j, h, tol);
    int r = 0;
    H.check_terrain(s, i, j, h, tol, r, [&] { r = real(s, i, j, h, tol); });
    return r;
}
#undef SYM
#define SYM SYM_cub
int w_cub(SO* s, int i, int j, int ind, int ic, int jc, float h, float tol) asm(SYM);
int w_cub(SO* s, int i, int j, int ind, int ic, int jc, float h, float tol) {
    REAL(w_cub); static long* hc = &H.hits["CheckUnstableBodyCell"]; ++*hc;
    if (!H.check_body) return real(s, i, j, ind, ic, jc, h, tol);
    int r = 0;
    H.check_body(s, i, j, ind, ic, jc, h, tol, r, [&] { r = real(s, i, j, ind, ic, jc, h, tol); });
    return r;
}
#undef SYM
#define SYM SYM_rut
void w_rut(SO* s, int st, float dh, int i, int j, int ic, int jc, ss::Grid g, ss::Body* b, float tol) asm(SYM);
void w_rut(SO* s, int st, float dh, int i, int j, int ic, int jc, ss::Grid g, ss::Body* b, float tol) {
    REAL(w_rut); static long* hc = &H.hits["RelaxUnstableTerrainCell"]; ++*hc;
    if (!H.relax_terrain_cell) return real(s, st, dh, i, j, ic, jc, g, b, tol);
    H.relax_terrain_cell(s, st, dh, i, j, ic, jc, g, b, tol, [&] { real(s, st, dh, i, j, ic, jc, g, b, tol); });
}
#undef SYM
#define SYM SYM_rub
void w_rub(SO* s, int st, std::vector<Rec>* q, float dh, int nn, int i, int j, int ind, int ic, int jc, ss::Grid g,
           ss::Body* b, float tol) asm(SYM);
void w_rub(SO* s, int st, std::vector<Rec>* q, float dh, int nn, int i, int j, int ind, int ic, int jc, ss::Grid g,
           ss::Body* b, float tol) {
    REAL(w_rub); static long* hc = &H.hits["RelaxUnstableBodyCell"]; ++*hc;
    if (!H.relax_body_cell) return real(s, st, q, dh, nn, i, j, ind, ic, jc, g, b, tol);
    H.relax_body_cell(s, st, q, dh, nn, i, j, ind, ic, jc, g, b, tol,
                      [&] { real(s, st, q, dh, nn, i, j, ind, ic, jc, g, b, tol); });
}
#undef SYM
#define SYM SYM_noise
float w_noise(float x, float y, std::vector<int> p) asm(SYM);
float w_noise(float x, float y, std::vector<int> p) {
    REAL(w_noise); static long* hc = &H.hits["simplex_noise"]; ++*hc;
    if (!H.noise) return real(x, y, p);
    float r = 0;
    H.noise(x, y, p, r, [&] { r = real(x, y, p); });
    return r;
}
#endif
