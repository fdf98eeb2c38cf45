// Run-time interposition on the functions of the code under test. The code
// under test is built as a shared object; the executable defines the same
// symbols, so that every call (including calls inside one translation unit)
// passes through these wrappers, which hand over to the real function.
#pragma once
#include "repo.hpp"

namespace sm {
using Call = const std::function<void()>&;
struct Hooks {
    std::function<void(VF&, VF&, ss::Grid&, ss::Body*, bool&, Call)> check_movement;
    std::function<void(SO*, VF&, VF&, ss::Grid&, ss::Body*, bool blade, ss::SimParam&, float, Call)> calc_body_pos;
    std::function<void(SO*, int, int, float, float, float, Call)> include_pos;
    std::function<void(SO*, VF&, VF&, ss::Grid&, ss::Body*, float, Call)> update_body_soil;
    std::function<void(SO*, ss::Grid&, ss::Body*, float, Call)> move_cells;
    std::function<void(SO*, ss::Grid&, ss::Body*, float, Call)> move_body_soil_all;
    std::function<void(SO*, float, Call)> move_body_all;
    std::function<void(SO*, ss::Grid&, ss::Body*, ss::SimParam&, float, Call)> relax_terrain;
    std::function<void(SO*, ss::Grid&, ss::Body*, ss::SimParam&, float, Call)> relax_body_soil;
    std::function<void(SO*, float, float, std::vector<std::vector<int>>&, Call)> locate_unstable;
    std::function<void(SO*, int, int, float, float, int&, Call)> check_terrain;
    std::function<void(SO*, int, int, int, int, int, float, float, int&, Call)> check_body;
    std::function<void(SO*, int, float, int, int, int, int, ss::Grid&, ss::Body*, float, Call)> relax_terrain_cell;
    std::function<void(SO*, int, std::vector<Rec>*, float, int, int, int, int, int, int, ss::Grid&, ss::Body*,
                       float, Call)> relax_body_cell;
    std::function<void(float, float, std::vector<int>&, float&, Call)> noise;
    std::map<std::string, long> hits;
    void clear() { auto h = std::move(hits); *this = Hooks(); hits = std::move(h); }  // nodes keep their address
};
extern Hooks H;
bool hooks_available();
}  // namespace sm
