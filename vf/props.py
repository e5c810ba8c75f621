PROPS = {}
def P(id, **k):
    PROPS[id] = k
P("C01", harness=[("c01", "asan", {"skip": ["small"]}), ("c01", "plain", {"skip": ["small"]}), ("c01", "vg", {"suites": ["small"]})], case_timeout=120,
  wrapper={"vg": ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=96", "--leak-check=no"]},
  rule="random programs of drawing, generating, solving, querying, copying, assigning, moving and destroying over pools of simulations; non-trivial: something was meshed or solved, distinct by the operations' outcome")
P("C02", more=15, more_thorough=5, harness=[("c02", "plain", {}), ("c02", "asan", {"skip": ["huge"], "scale": 0.25})],
  rule="random symmetric assemblies (order, density, missing diagonals, accumulated pieces); non-trivial: has off-diagonal entries")
P("C03", more=12, more_thorough=5, harness=[("c03", "plain", {"maxchunk": 2000}), ("c03", "asan", {"scale": 0.3, "maxchunk": 2000})],
  rule="random operand vectors over all lengths 0..70 and beyond, random aliasing of result and operands; non-trivial: length > 1")
P("C04", more=12, more_thorough=5, harness=[("c04", "plain", {"maxchunk": 50}), ("c04", "asan", {"skip": ["huge"], "scale": 0.15, "maxchunk": 50})],
  rule="random SPD systems (Laplacians, tridiagonal, grids, dense, eliminated rows, scaled), starting vectors and tolerances; non-trivial: n > 2")
P("C05", more=15, more_thorough=5, harness=[("c05", "plain", {}), ("c05", "asan", {"skip": ["huge"], "scale": 0.3})],
  rule="random symmetric systems (linear and nonlinear entries), random sets, orders and repetitions of prescribed nodes; non-trivial: coupled nodes")
P("C06", more=20, more_thorough=5, harness=[("c06", "plain", {}), ("c06", "asan", {"skip": ["huge"], "scale": 0.3})],
  rule="random programs over pools of nonlinear expressions (self-aliasing included) and random nonlinear assemblies; non-trivial: more than three operations / off-diagonal entries")
P("C07", more=6, more_thorough=3, harness=[("c07", "plain", {"maxchunk": 2000}), ("c07", "asan", {"scale": 0.15, "maxchunk": 2000})],
  rule="random simple polygons (star-shaped, combs with many aligned edges, untangled point sets) and segment pairs on coarse and fine grids, all probe classes; non-trivial: every judged case, distinct by geometry")
P("C08", more=15, more_thorough=5, harness=[("c08", "plain", {}), ("c08", "asan", {"scale": 0.15})], case_timeout=40,
  rule="random, cocircular, collinear, gridded, lopsided and duplicated point sets at several scales and offsets; non-trivial: more than two points")
P("C09", more=12, more_thorough=4, harness=[("c09", "plain", {}), ("c09", "asan", {"scale": 0.2})],
  rule="random programs of drawing operations on coarse grids (neighbouring, nested, crossing and repeated shapes), judged against exact integer geometry; non-trivial: at least two shapes accepted or one rejected")
P("C10", more=3, more_thorough=2, harness=[("c10", "plain", {}), ("c10", "asan", {"skip": ["big"], "scale": 0.1})], case_timeout=60,
  rule="random planar scenes (nested/disjoint polygons, tilings sharing edges, pies), scaled, rotated, shifted, random area and angle bounds; non-trivial: meshed, distinct by geometry")
P("C12", more=15, more_thorough=5, harness=[("c12", "plain", {}), ("c12", "asan", {"skip": ["big"], "scale": 0.1})], case_timeout=60,
  rule="random scenes with random conductivities, thickness, area and angle bounds, and pies with up to 60 triangles on one vertex; non-trivial: assembled, distinct by geometry")
P("C13", more=4, more_thorough=2, harness=[("c13", "plain", {}), ("c13", "asan", {"skip": ["big"], "scale": 0.08})], case_timeout=90,
  rule="random scenes with random materials, thickness, electrodes (corners, arbitrary points) and voltages, floating parts included, and series/parallel bars between plates; non-trivial: solved, distinct by geometry")
P("C14", more=8, more_thorough=3, harness=[("c14", "plain", {}), ("c14", "asan", {"skip": ["big"], "scale": 0.08})], case_timeout=90,
  rule="random stacks of 1-4 layers with random scenes, thicknesses, and 0-6 interconnections (parallel, same-layer, shared end points), and resistor ladders of bars; non-trivial: solved, distinct by geometry")
P("C17", more=4, more_thorough=2, harness=[("c17", "plain", {}), ("c17", "asan", {"skip": ["big"], "scale": 0.1})], case_timeout=60,
  rule="separate triangles of sizes 1e-6..1e6, aspect ratios to 1e-5 and both orientations, real meshes, and meshes with exterior shells, each with affine and random potentials; non-trivial: judged, distinct by geometry")
P("C11", more=3, more_thorough=2, harness=[("c11", "plain", {}), ("c11", "asan", {"skip": ["big"], "scale": 0.1})], case_timeout=60,
  rule="random scenes of all sizes and positions, symmetric circles and rectangles, drawings without shapes, all area and angle bounds; non-trivial: meshed, distinct by geometry")
P("C15", more=2, more_thorough=1, harness=[("c15", "plain", {}), ("c15", "asan", {"skip": ["big"], "scale": 0.05})], case_timeout=90,
  rule="random scenes of conductors, magnets and linear materials (nested, adjacent, marked twice), whole open-boundary simulations in four source variants, and arrangements with analytic fields; non-trivial: assembled or solved with sources, distinct by geometry")
P("C16", harness=[("c16", "plain", {}), ("c16", "asan", {"scale": 0.05})], case_timeout=90,
  rule="random monotone curves of 2 to 12 points probed at table points, their neighbours, between and beyond, and whole simulations with curve materials; non-trivial: judged, distinct by curve or geometry")
P("C19", more=4, more_thorough=2, harness=[("c19", "plain", {}), ("c19", "asan", {"skip": ["big"], "scale": 0.08})], case_timeout=60,
  rule="random scenes (nested, adjacent, disjoint, drawn twice, circles) at all scales, orientations and positions, bare and inside whole magnetostatic simulations, with several query points and centres per body; non-trivial: judged, distinct by geometry")
P("C18", harness=[("c18", "plain", {}), ("c18", "asan", {"scale": 0.04})], case_timeout=300,
  rule="random scenes with uniform fields, with the exact fields of line currents, and whole simulations of conductors, magnets and iron, with bodies of all shapes, nested or in the open, and random torque centres; non-trivial: judged, distinct by geometry")
P("C21", runner="c21", case_timeout=200,
  rule="random multi-layer circuits driven through the Python extension and the C++ interface, bit by bit; calls with arguments of any type and value in a sanitized extension; malformed calls; repetition under object, reference and heap counters; interleaved, subclassed and threaded use; non-trivial: judged, distinct by scenario")
P("C22", harness=[("c22", "plain", {}), ("c22", "asan", {"scale": 0.06, "skip": ["process"]})], case_timeout=120,
  rule="random magnetostatic, sheet and layered simulations, drawings and matrices, run before and after others, repeated, copied, and in fresh processes with different heap contents; non-trivial: compared, distinct by results")
P("C20", harness=[("c20", "tsan", {"scale": 0.6}), ("c20", "plain", {})], case_timeout=120, jobs=4,
  rule="2 to 8 threads with random pauses, each running whole magnetostatic, sheet and layered simulations, drawings and solvers, the same or different ones, also handed over between threads; non-trivial: compared with running alone, distinct by results")
P("C23", more=2, more_thorough=1, harness=[("c23", "opencv", {})], case_timeout=200,
  rule="random meshes (bounded, open, conduction), fields of eight kinds, image shapes, overlays and clipping; every image judged by pixel against the geometry and the field; drawings, matrices, files, malformed fields; non-trivial: judged, distinct by mesh, field and image size")
P("C24", harness=[("c24", "asan", {"scale": 2}), ("c24", "plain", {"scale": 5})], case_timeout=200,
  rule="50 kinds of malformed input from drawing to solving, with random sizes and special values; alone, in sequences between reference simulations, and as refused calls on simulations in use; non-trivial: judged, distinct by input or geometry")
