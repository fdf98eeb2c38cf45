#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script only so the JSON is always well formed)."""
import json, os
SD='soil_simulator/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=[SD+f if '/' not in f else f for f in files],
            mechanism=[dict(name=n,where=w) for n,w in mech],
            state=[dict(name=n,meaning=m) for n,m in state],
            observe_at=list(obs),hook_needed=hook)))
ENV=("any grid (any cell sizes with cell_size_z <= cell_size_xy, different X and Y extents), any bucket or blade, any repose angle, "
     "iteration limit and buffer, any terrain whose heights are whole cells, any sequence of poses that keeps the body and a margin of "
     "three cells inside the grid")

p('P01','Soil is neither created nor destroyed',
  "Over any sequence of simulation steps, and across every individual soil-moving operation, the total amount of soil (terrain plus soil resting on the body) stays constant up to floating-point noise far below one cell, for any repose height of at least one cell. The only exceptions are a step that logs that not all soil intersecting a body layer could be moved (it may remove soil, but never more than the amount that was intersecting a body layer, and only when no direction offered room for it) and numerical remnants of less than nine tenths of a cell that the soil transport drops. No operation ever increases the total.",
  ['inputs','histories','configurations'],ENV,
  "Unit tests check hand-made single-cell moves; none runs a step, let alone long histories in which records split, merge and are carried through rotations.",
  ['relax.cpp','intersecting_cells.cpp','body_soil.cpp','soil_dynamics.cpp'],
  [('terrain avalanche','relax.cpp RelaxUnstableTerrainCell'),('body soil avalanche','relax.cpp RelaxUnstableBodyCell'),('body soil transport','body_soil.cpp UpdateBodySoil'),('intersecting body soil','intersecting_cells.cpp MoveIntersectingBodySoil/MoveBodySoil'),('intersecting terrain','intersecting_cells.cpp MoveIntersectingBody')],
  [('terrain_','terrain height per cell'),('body_soil_','soil columns on the two body layers'),('body_soil_pos_','records of landed soil')],
  ['before and after each phase of Step'])

p('P02','Soil records and soil columns agree',
  "After every step and every operation, for each cell and body layer the recorded soil parcels add up to the height of the soil column there, every parcel has a non-negative amount, a valid layer and in-grid indices, and every column that holds soil is covered by parcels. Each newly created parcel stores the point of the body it rests on, expressed in the body's reference frame, so that applying the current pose to it gives back the cell (and the height of the layer's top) where it was put.",
  ['inputs','histories','configurations'],ENV,
  "Tests compare a few records of one call; agreement after arbitrarily long histories of partial avalanches, merges and pose changes is never checked.",
  ['relax.cpp','intersecting_cells.cpp','body_soil.cpp','utils.cpp','types.hpp'],
  [('record creation','relax.cpp, intersecting_cells.cpp push_back of body_soil'),('body frame position','utils.cpp CalcBodyFramePos'),('record refresh','body_soil.cpp UpdateBodySoil')],
  [('body_soil_pos_','records: layer, cell, body-frame point, amount')],['after each phase of Step'])

p('P03','Soil and body never overlap after a step',
  "After every completed step, over the whole grid: terrain is never above the bottom of a body layer present in that cell, each body layer's top is above its bottom, two body layers in a cell do not overlap, body soil exists only where its body layer exists, rests exactly on that layer's top, has its top not below its bottom, and does not penetrate the other body layer.",
  ['inputs','histories','configurations'],ENV,
  "The consistency checker itself is tested on hand-made states, but no test runs it on states produced by steps.",
  ['soil_dynamics.cpp','intersecting_cells.cpp','relax.cpp','body_soil.cpp','body_pos.cpp'],
  [('removal of intersecting soil','intersecting_cells.cpp MoveIntersectingCells'),('capped avalanches','relax.cpp RelaxUnstable*Cell'),('layer bookkeeping','body_pos.cpp IncludeNewBodyPos')],
  [('terrain_, body_, body_soil_','heights per cell')],['after Step'])

p('P04','No memory error or undefined behaviour for in-grid bodies',
  "For every valid configuration and every pose that keeps the body with its three-cell margin inside the grid, all public operations return, and run without out-of-bounds access, use of freed or uninitialised memory, leak of soil bookkeeping memory or other undefined behaviour, including on non-square grids, at the smallest allowed buffer and when soil reaches the grid border.",
  ['inputs','histories','configurations'],ENV,
  "No test is run under a sanitizer, all use one square grid with the body far from the border, and indices are computed from floating-point poses.",
  ['body_pos.cpp','body_soil.cpp','intersecting_cells.cpp','relax.cpp','utils.cpp','soil_dynamics.cpp','types.cpp'],
  [('voxelisation','body_pos.cpp CalcLinePos/CalcRectanglePos/CalcTrianglePos'),('ray walks','intersecting_cells.cpp'),('area loops','relax.cpp LocateUnstableTerrainCell'),('noise tables','utils.cpp simplex_noise')],
  [],['sanitizer and memcheck reports'])

p('P05','The body footprint matches the walls at the given pose',
  "After a pose update, the occupied layers in every cell are exactly what the body's walls occupy there to within one cell height: every point of every wall (bucket: base, back, two sides, open front; blade: front and back faces of ankle and heel one lateral cell apart) lies inside a layer, no cell whose square is not touched by a wall holds a layer (up to rounding where an edge runs through the corner shared by four cells), and nothing of the previous footprint remains. The body is rigid: its own points and width never change. Walls that overlap or touch vertically in a cell are merged into one layer spanning both, and disjoint ones are kept as two separate layers.",
  ['inputs','configurations'],"any body shape and width, any position and unit (or scaled) quaternion, any grid resolution, any previous footprint",
  "Tests fix a handful of axis-aligned or 45-degree poses on one grid; the mapping has to hold for all continuous poses, edge orientations and cell ratios.",
  ['body_pos.cpp','utils.cpp'],
  [('wall voxelisation','body_pos.cpp CalcRectanglePos, CalcTrianglePos, CalcLinePos, Decompose*'),('layer merge','body_pos.cpp UpdateBody, IncludeNewBodyPos'),('corner positions','utils.cpp CalcBodyCornerPos')],
  [('body_','bottom and top of the two body layers'),('body_area_','area around the body')],['after CalcBodyPos'])

p('P06','A step acts exactly when the body has moved enough',
  "A step returns false and leaves every output and the remembered pose bit-for-bit unchanged when no corner of the body has moved by at least half the smaller cell size since the last step that acted, and otherwise returns true and remembers the new pose; small movements therefore accumulate until they trigger an update, and the very first step always acts. A warning that the movement is too large is logged exactly when some corner moved by more than twice the smaller cell size.",
  ['inputs','histories','configurations'],"any pose history, any corner being the one that moves most, any body shape, rotations about any point, quaternion sign flips and scaling",
  "The gate is tested on a few poses with one body; the accumulation across calls and the untouched state on a refused step are never tested because Step is not.",
  ['utils.cpp','soil_dynamics.cpp','body_soil.cpp'],
  [('gate','utils.cpp CheckBodyMovement'),('dispatch','soil_dynamics.cpp Step'),('pose memory','body_soil.cpp UpdateBodySoil')],
  [('body pos_/ori_','pose at last acting step')],['Step return value, logged warnings'])

p('P07','Avalanche decisions follow the stability rule',
  "A soil column (terrain or body soil) is reported to avalanche towards one of its four lateral neighbours exactly when the surface that would receive the soil there is lower than the column by more than the repose height, and the reported destination is the documented one, always telling apart bare body and existing soil: the terrain where there is no body or free space under it, otherwise the gap between the two layers while it has room, otherwise the top of the body. Soil on the body enters such a space under a neighbouring layer only when the layer that carries it is lower than that layer. The pre-selection of terrain cells contains exactly the cells of the active area having a lateral neighbour lower by more than the repose height.",
  ['inputs','configurations'],"any arrangement of terrain, zero, one or two body layers in either order, and soil on them, in a column and its neighbour; any repose height",
  "Tests sample a few dozen configurations with fixed heights out of the full combination of layer orders, gaps, fillings and height relations.",
  ['relax.cpp'],
  [('terrain decision','relax.cpp CheckUnstableTerrainCell'),('body soil decision','relax.cpp CheckUnstableBodyCell'),('pre-selection','relax.cpp LocateUnstableTerrainCell')],
  [],['return values on synthetic and reached states'])

p('P08','A terrain avalanche moves the right amount to the right place',
  "A terrain avalanche changes only the unstable cell and the one neighbour it was decided for; it lowers the terrain column and raises exactly the decided destination by the same amount, down to a whole-cell height at which the remaining slope is within the repose height and less than two cells below it, unless the body above the destination leaves less room, in which case it fills that room exactly. A relaxation pass handles every unstable column of the active area towards all four directions, so that a column whose surroundings are not disturbed by other avalanches is stable after the pass, whatever the processing order.",
  ['inputs','schedules','configurations'],"any arrangement as for the avalanche decision, any processing order of cells and directions, any repose angle",
  "Tests check sampled configurations with one seed; whole passes over many interacting cells and random orders are untested.",
  ['relax.cpp'],
  [('amount and destination','relax.cpp RelaxUnstableTerrainCell'),('pass','relax.cpp RelaxTerrain')],
  [('terrain_, body_soil_, body_soil_pos_','columns and records')],['before and after each call'])

p('P09','A body soil avalanche moves the right amount to the right place',
  "A body soil avalanche takes soil only from the parcel and column it was decided for and gives the same amount to the decided destination in the one neighbour: enough to bring the remaining slope within the repose height and less than two cells below it, limited by what the parcel holds and by the room under a body layer above the destination. A column emptied by it disappears entirely, the moved soil becomes one parcel at the destination (none when it landed on terrain), and a used-up parcel moves nothing further. A relaxation pass handles every parcel, layer and direction, and never leaves a parcel or column without soil behind that it created itself.",
  ['inputs','schedules','configurations'],"any arrangement as for the avalanche decision, any parcel split of the column, any processing order",
  "Tests check sampled configurations with one parcel per column mostly; arbitrary parcel splits, layer orders and capped cases are not covered.",
  ['relax.cpp'],
  [('amount and destination','relax.cpp RelaxUnstableBodyCell'),('pass','relax.cpp RelaxBodySoil')],
  [('body_soil_, body_soil_pos_, terrain_','columns and records')],['before and after each call'])

p('P10','The equilibrium verdict is sound and iterations are bounded',
  "A step performs at most the configured number of relaxation rounds, at least one unless that number is zero, and stops at the first round that moves nothing. When it reports equilibrium, no terrain column of the active area away from the outermost ring of cells and no parcel of body soil would avalanche, nor anywhere else in the grid if the terrain was stable before, the buffer spans at least four cells and the body moved by no more than two; when relaxation moved soil in the last round, equilibrium is not reported.",
  ['inputs','histories','configurations'],ENV+", provided earlier steps had converged or the terrain was inside the active area since",
  "Step is untested; tests never relate the reported flag to the actual stability of the complete grid after narrowing of the active area.",
  ['soil_dynamics.cpp','relax.cpp'],
  [('loop','soil_dynamics.cpp Step'),('flag','relax.cpp RelaxTerrain/RelaxBodySoil'),('active area','relax.cpp relax_area_ update')],
  [('equilibrium_','reported flag'),('impact_area_, relax_area_, body_area_','active areas')],['after Step'])

p('P11','Terrain settles to the repose angle and then stays put',
  "From any terrain, repeated relaxation with a repose height of at least one cell reaches within a bounded number of rounds a state reported as equilibrium, in which no two laterally adjacent columns inside the active area differ by more than the repose height unless the lower one is covered by the body; settled terrain is not altered by further steps that do not touch it. Soil never moves uphill: every round that moves soil levels the terrain, the peak height never increases, and the outermost ring of cells gives nothing away.",
  ['inputs','schedules','configurations'],"any terrain profile, any seed, any repose angle whose repose height is at least one cell, any position of a resting body",
  "Convergence is a statement over long runs and random schedules; no test runs more than one relaxation pass.",
  ['relax.cpp','soil_dynamics.cpp'],
  [('relaxation','relax.cpp RelaxTerrain'),('loop','soil_dynamics.cpp Step')],
  [('terrain_','heights')],['after each relaxation round'])

p('P12','Soil on the body is carried rigidly with it',
  "When the pose changes, every soil parcel of at least nine tenths of a cell keeps its body-frame point and its amount (rounded to whole cells) and is placed on the body layer whose top is within one cell height of the transported point, looking first at the cell where the point now lies and then at the eight neighbours in the order given by the direction of motion; if none qualifies it goes to the vertically closest layer among those nine cells, and only if the body is in none of them to the terrain at that cell, with a warning. Smaller remnants are dropped, and no soil column is left behind at the old place.",
  ['inputs','histories','configurations'],"any translation and rotation between updates, any parcels, either layer order, pure vertical moves, long sequences of moves",
  "Tests use a few parcels and one bucket pose each; the outcome depends on continuous poses and on the accumulated history of parcels.",
  ['body_soil.cpp','utils.cpp'],
  [('transport','body_soil.cpp UpdateBodySoil'),('rotation','utils.cpp CalcRotationQuaternion')],
  [('body_soil_pos_','parcels'),('body_soil_','columns')],['before and after UpdateBodySoil'])

p('P13','Body soil squeezed by a body layer is moved within the walls',
  "Body soil that reaches above the bottom of a higher body layer in its cell is cut down to that bottom and the excess is moved outwards in straight lines along the eight lateral directions: into the room between the two layers of successive cells, onto a single lower layer, or to the terrain where there is no body or the body lies higher, never through a wall formed by a layer that closes the way. A direction is used up before another one is tried, and soil that does not intersect is not touched. Excess is dropped (with a warning) only if none of the eight directions, each followed up to the wall that ends it, offered enough room.",
  ['inputs','schedules','configurations'],"any local arrangement of one and two-layer cells, any filling, any order of directions, several parcels per column",
  "Tests place one column and a fixed seed; the walk depends on arbitrary wall layouts and on the random order of directions.",
  ['intersecting_cells.cpp'],
  [('excess and order','intersecting_cells.cpp MoveIntersectingBodySoil'),('one move','intersecting_cells.cpp MoveBodySoil')],
  [('body_soil_, body_soil_pos_, terrain_','columns and records')],['before and after the call'])

p('P14','Terrain cut by the body is pushed to the nearest free place',
  "Terrain above the bottom of a body layer, anywhere in the area of the body, is lowered exactly to the lowest body bottom in its cell and the excess is put back on the terrain along the eight straight lateral directions, at the smallest distance that offers room: unlimited where no body is present, up to the body bottom where there is space under it. No other terrain is lowered, no body soil changes, and no terrain remains intersecting the body after a step.",
  ['inputs','schedules','configurations'],"any body footprint and terrain, deeply buried bodies, both layer orders, any order of cells and directions",
  "Tests use small hand-made footprints and fixed seeds; large buried footprints need multi-ring searches and shared capacity.",
  ['intersecting_cells.cpp'],
  [('location','intersecting_cells.cpp LocateIntersectingCells'),('relocation','intersecting_cells.cpp MoveIntersectingBody')],
  [('terrain_','heights')],['before and after the call'])

p('P15','A step only affects the neighbourhood of the body and of moving soil',
  "A step changes soil only inside the active area (extended by one cell) of its relaxation rounds or where the body displaces it; that area always lies within the grid interior and spans the body's bounding box with the configured buffer and the unstable soil found in the previous round with the same buffer, both clamped to the interior, and the outermost ring of the grid only ever receives soil. Terrain is lowered only where it is unstable inside the active area or cut by the body, and terrain that is stable and that neither the body nor moving soil reaches is bit-for-bit unchanged. A round in which nothing is unstable leaves the active area as it is.",
  ['inputs','histories','configurations'],ENV,
  "Tests check the area after one call on one grid; containment and non-interference are statements about all steps of all histories.",
  ['body_pos.cpp','relax.cpp','soil_dynamics.cpp','types.cpp'],
  [('body area','body_pos.cpp CalcBodyPos'),('relax area','relax.cpp RelaxTerrain'),('union','soil_dynamics.cpp Step')],
  [('body_area_, relax_area_, impact_area_','areas')],['after each phase of Step'])

p('P16','Runs are reproducible and simulations are independent',
  "Given the same seed, inputs and call sequence, two runs produce bit-for-bit identical outputs and consume the same random numbers, whatever was simulated before, whatever other simulations are interleaved with it on other objects, and whatever garbage uninitialised memory holds; a run continued from copies of its objects goes on identically. Arguments passed by value or as parameters (grid, parameters, poses) are not altered by any operation.",
  ['inputs','histories','schedules'],ENV+"; any interleaving of two simulations with separately kept random states",
  "Tests run each function once; hidden state, iteration over stale data or dependence on garbage only shows by comparing complete runs.",
  ['soil_dynamics.cpp','relax.cpp','intersecting_cells.cpp','body_soil.cpp','body_pos.cpp','utils.cpp'],
  [('random numbers','rng, used in Init, Step, Relax*, MoveIntersecting*'),('whole state','SimOut')],
  [('all outputs','bitwise digest')],['digest after every step'])

p('P17','Generated terrain is bounded, whole-cell, smooth and seed-determined',
  "Terrain initialisation overwrites every cell with the sum of four octaves (weights 1/2, 1/4, 1/8, 1/16 at frequencies 1, 2, 4, 8 over the grid rescaled to the unit square) of two-dimensional simplex noise times the amplitude, rounded to the nearest whole cell; the noise uses one random permutation of 0..255 drawn from the seeded generator, is continuous, vanishes at lattice points and stays within the theoretical bound of the kernel. A zero amplitude gives flat terrain, and the same seed on a finer or non-square grid samples the same field.",
  ['inputs','configurations'],"any seed, amplitude, grid extents and resolution; any point of the unit square and beyond up to frequency 8",
  "Neither the initialisation nor the noise function has any test.",
  ['soil_dynamics.cpp','utils.cpp'],
  [('octaves and rounding','soil_dynamics.cpp Init'),('noise','utils.cpp simplex_noise')],
  [('terrain_','heights')],['after Init; noise values'])

p('P18','Output files reproduce the state and never overwrite each other',
  "Each write creates one new numbered terrain file, one body soil file with the same number and one body file (bucket or blade), using the lowest five-digit numbers not yet present among earlier outputs and leaving every existing file unmodified. The files contain a header and, to the printed six significant digits, exactly one point per grid cell with its terrain height, one point per soil column of either body layer at its top (a single dummy grid corner when there is no body soil), and the corners of each wall of the body at its current pose in the documented order. Writing does not alter the simulation state.",
  ['inputs','histories','configurations'],"any simulation state, any number and gaps of files already present, both bodies, non-square grids",
  "No test calls the writers.",
  ['utils.cpp','soil_dynamics.cpp'],
  [('writers','utils.cpp WriteSoil, WriteBody'),('entry point','soil_dynamics.cpp WriteOutputs')],
  [('results directory','CSV files')],['directory contents after every call'])

p('P19','The built-in consistency checks give the right verdict',
  "The volume check accepts a state exactly when the soil records add up to the soil columns everywhere and the total number of soil cells equals the expected one, and the convention check accepts it exactly when none of the documented conventions (terrain below body, ordered and disjoint layers, soil only on a body, resting exactly on it and not through the other layer) is broken in any cell of the body's area; every rejection logs a warning and every acceptance is silent. Neither check modifies the state, and the combined check runs both.",
  ['inputs','configurations'],"any valid or corrupted state, any cell including borders, either layer, amounts from well above tolerance",
  "Tests corrupt a few fixed cells on one grid; soundness and completeness over all cells, layers and kinds of corruption is not sampled.",
  ['utils.cpp','soil_dynamics.cpp'],
  [('volume','utils.cpp CheckVolume'),('conventions','utils.cpp CheckSoil'),('both','soil_dynamics.cpp Check')],
  [],['return value, logged warnings'])

p('P20','Invalid configurations are rejected and grids are well formed',
  "Creating a grid, body, parameter set throws an invalid-argument error exactly when a documented requirement is violated (positive sizes, cell height not above lateral size, cells not larger than the grid, three distinct three-component body points that are not aligned, positive width, repose angle within [0, pi/2], non-negative iterations, buffer at least 2) and otherwise stores the given values, body points relative to the origin point. The grid then has 2n+1 cells per direction, with n the rounded ratio of size and cell size, whose tabulated positions are those of the cell centres used to locate the body: index i is at (i - n) cells, tops in Z one cell higher, and a new output state is empty with full-interior areas.",
  ['inputs','configurations'],"any argument combination including boundary values, sizes that are not multiples of the cell size, very flat cells",
  "Tests try a few values; the agreement between tabulated positions and the index mapping is not tested for sizes that are not multiples of the cell size.",
  ['types.cpp','types.hpp'],
  [('grid','types.cpp Grid::Grid'),('body','types.cpp Body::Body'),('parameters','types.cpp SimParam::SimParam'),('outputs','types.cpp SimOut::SimOut')],
  [],['constructor results'])

p('P21','Pose mathematics is consistent',
  "Rotating a point by an orientation preserves lengths, angles and handedness, does not depend on the quaternion's scale or sign, composes like the product of the quaternions and is undone by the conjugate; the conversion from three ZYX Euler angles gives a unit quaternion with non-negative real part that rotates like the three elementary rotations. The body-frame conversion is the exact inverse of posing the body, and the six corners of a posed body are the rigidly moved reference corners half a width to each side, along the unit normal of the joint-base-teeth plane.",
  ['inputs'],"any quaternion, point, angle triple (including half turns), body shape, pose and grid cell",
  "Tests use a few fixed quaternions and angles with rounded expected values.",
  ['utils.cpp'],
  [('rotation','utils.cpp CalcRotationQuaternion, MultiplyQuaternion'),('Euler','utils.cpp AngleToQuat'),('frames','utils.cpp CalcBodyFramePos, CalcBodyCornerPos, CalcNormal')],
  [],['return values'])

p('P22','Soil movement has no directional preference',
  "Because processing orders are randomised, symmetric situations spread soil without bias: over many seeds, each of the four lateral directions (eight for soil displaced by the body) is equally likely to receive the contested soil, for a collapsing terrain column, for soil collapsing on the body, for terrain pushed aside by the body and for squeezed body soil. In relaxation, no processing order of unstable cells or of soil parcels is systematically favoured either.",
  ['schedules','inputs'],"any seed; symmetric piles, pits and footprints under the symmetries of the grid",
  "A single seeded outcome cannot show a bias; tests fix the seed and accept one outcome.",
  ['relax.cpp','intersecting_cells.cpp','soil_dynamics.cpp'],
  [('random orders','relax.cpp RelaxTerrain/RelaxBodySoil shuffles'),('random directions','intersecting_cells.cpp shuffles'),('parcel shuffle','soil_dynamics.cpp Step')],
  [],['distribution of outcomes over seeds'])

p('P23','Results do not depend on the unit of length',
  "If every length (grid and cell sizes, body points and width, positions, tolerance, noise amplitude, soil already present) is multiplied by the same power of two, and quaternions by any power of two or by minus one, every step acts alike, logs the same warnings, consumes the same random numbers, and yields the same areas, soil records and equilibrium verdict and heights multiplied by that factor; terrain generation, grids and the built-in consistency checks agree likewise. Only the body footprint may differ by its documented accuracy of one cell height, where a corner of the body lies within the tolerance of a cell boundary. No absolute length is hidden in the simulation.",
  ['inputs','histories','configurations'],"any configuration and history; factors from 2^-10 to 2^10 with a tolerance that stays a small number and values in the normal range of floats",
  "Tests use cells of 0.1 to 1 only; a hidden absolute threshold shows in other units only.",
  ['soil_dynamics.cpp','body_pos.cpp','body_soil.cpp','intersecting_cells.cpp','relax.cpp','utils.cpp','types.cpp'],
  [('step','soil_dynamics.cpp Step'),('thresholds','utils.cpp CheckBodyMovement, body_soil.cpp UpdateBodySoil, relax.cpp')],
  [('all of SimOut','every height, record and area')],['after every step played in two units at once'])

p('P24','Soil behaves the same anywhere in the grid',
  "Relaxation of terrain and of body soil, squeezing of body soil and cutting of terrain depend on the local situation only: the same situation displaced by whole cells horizontally (away from the border of the grid) or vertically, in a grid of any size and surrounded by any other terrain that the operation does not reach, evolves identically for the same random numbers, displaced likewise, and nothing else changes.",
  ['inputs','configurations'],"any situation of terrain, body layers and soil; any displacement up to thousands of cells; grids up to thousands of cells long",
  "Tests use one small grid with heights near zero.",
  ['relax.cpp','intersecting_cells.cpp'],
  [('relaxation','relax.cpp RelaxTerrain, RelaxBodySoil'),('squeeze and cut','intersecting_cells.cpp MoveIntersectingBodySoil, MoveIntersectingBody')],
  [('terrain_, body_soil_, body_soil_pos_, areas','displaced likewise')],['after every operation played at two places at once'])

p('P25','The slots that store the two body layers of a cell are interchangeable',
  "Which of the two slots of a cell stores which body layer does not matter to the soil: if the two layers, with the soil on them, exchange their slots in any set of cells, stability decisions name the exchanged slots, transport, squeezing, cutting and relaxation give the same heights and the same soil records with exchanged slots for the same random numbers and warnings, and the consistency checks judge alike. The order of the slots may only decide where transport finds both layers of a cell equally good, and the order of cutting where terrain reaches both layers of a cell.",
  ['inputs','configurations'],"any situation of terrain, zero to two body layers per cell and soil; any subset of the cells exchanged",
  "The code has separate branches for each slot; tests exercise few combinations of order, neighbour order and soil.",
  ['relax.cpp','intersecting_cells.cpp','body_soil.cpp','utils.cpp'],
  [('branches per slot','relax.cpp CheckUnstable*/RelaxUnstable*, intersecting_cells.cpp MoveBodySoil'),('transport','body_soil.cpp UpdateBodySoil'),('checks','utils.cpp CheckVolume, CheckSoil')],
  [('body_, body_soil_, body_soil_pos_.ind','slots 0-1 and 2-3')],['after every decision and operation played with exchanged slots'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
