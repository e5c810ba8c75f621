#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run `python3 vf/propdefs.py` after editing."""
import json, os, sys
S = "lib/nikfemm/src/"
OUT = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note="", claimed=True, reason=""):
    OUT.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=[f if f.startswith("python") or f.startswith("lib") else S + f for f in files],
                    mech=mech, state=state, observe=observe, technique=technique, note=note, claimed=claimed, reason=reason))

prop("C01", "No undefined behaviour or memory error in any valid use",
     "Whatever valid drawing, material set and sequence of library calls a program makes, the library never reads or writes memory it does not own, never uses uninitialised or freed memory, never frees twice, and never executes undefined behaviour. This includes building, copying where allowed, re-solving and destroying simulations, and meshes with vertices shared by arbitrarily many triangles.",
     "inputs programs", "all sequences of public calls with valid arguments, all drawings, all mesh shapes and vertex degrees",
     "The unit tests are compiled without instrumentation and mesh a handful of small drawings; a stray write usually does not change their result.",
     ["mesh/mesh.hpp", "magnetostatic/mesh.cpp", "magnetostatic/simulation.cpp", "current_density/mesh.cpp", "current_density/multilayer_simulation.cpp", "algebra/csr.cpp", "algebra/non_linear.cpp", "drawing/drawing.hpp", "triangle/triangle.cpp"],
     ["per-vertex adjacency tables sized by the mesh", "ownership of the arrays the mesher allocates", "bounds of matrix and mesh index structures"],
     observe=["AddressSanitizer/UBSan reports", "Valgrind memcheck reports", "abnormal termination"],
     technique="ASan + UBSan + Valgrind memcheck on whole simulations", note="Whole pipelines (drawing, meshing, assembly, solving, post-processing, teardown) under ASan/UBSan and memcheck, over generated scenes; assumes a fault shows on an executed path.")
prop("C02", "Sparse matrices represent exactly the assembled entries",
     "A symmetric sparse matrix built from any sequence of entry assignments and accumulations reads back, for every row and column in either order, exactly the accumulated value, zero where nothing was assembled, and multiplies any vector as the equivalent dense symmetric matrix does. This holds whichever entries, including diagonal ones, were never assembled, and for every order of assembly.",
     "inputs histories", "every order of assembly, every sparsity pattern (missing diagonals, empty rows), every size",
     "The tests build one 5x5 matrix with a full diagonal in one order.",
     ["algebra/coo.hpp", "algebra/csr.cpp", "algebra/csr.hpp", "algebra/math.cpp"],
     ["sorting and splitting of assembled entries into diagonal and row-compressed upper part", "symmetric lookup", "matrix-vector product"],
     observe=["element access", "matrix-vector products", "operator results"],
     technique="differential monitor against a dense model, plain and ASan/UBSan", note="Every element and products are compared with a dense model on thousands of random assemblies.")
prop("C03", "Vector kernels compute their definition, also in place",
     "Every vector operation (sum, difference, product, quotient, scaled sum, dot product, norm, scalar forms, element-wise norms, grid interpolation) returns the mathematical element-wise result for vectors of every length, also when the result vector is one of the operands, and never changes an operand that is not the result.",
     "inputs", "all lengths (vectorised main loop and remainder), all values, all aliasing patterns of result and operands",
     "The tests use one length and never alias the result with an operand.",
     ["algebra/math.cpp", "algebra/math.hpp", "utils/utils.cpp"],
     ["vectorised loops and their scalar remainders"],
     observe=["result and operand vectors after each call"],
     technique="differential monitor against long-double scalar model, ASan/UBSan", note="All lengths 0..70 plus larger, aliasing and operand-preservation monitored.")
prop("C04", "Iterative solvers return a solution of the system or say so",
     "For every symmetric positive definite system the plain, Jacobi- and SSOR-preconditioned conjugate gradient solvers drive the residual to the requested tolerance, from any starting vector including the exact solution, whatever the scale of the entries, and agree with one another. No solver produces a non-finite value on such a system, and each stops within its iteration limit.",
     "inputs", "all SPD systems incl. badly scaled ones, all starting vectors, tolerances and iteration limits",
     "The tests solve one small system with one solver from zero.",
     ["algebra/solvers.cpp", "algebra/solvers.hpp", "algebra/csr.cpp"],
     ["conjugate gradient recurrences and stopping rule", "SSOR forward/backward substitution"],
     observe=["returned vector: true residual and error against a dense direct solution"],
     technique="residual/solution oracle (dense Cholesky) over random SPD systems", note="Residual is recomputed independently in long double.")
prop("C05", "Fixing a node keeps the system equivalent and symmetric",
     "Prescribing the value of any set of nodes, in any order, yields a symmetric system whose solution has exactly the prescribed values at those nodes and elsewhere satisfies the original equations with those values substituted. The other entries of the system are left unchanged.",
     "inputs histories", "all systems, all sets of prescribed nodes, all orders, repetition of the same prescription",
     "The single test fixes boundary nodes of one system and looks at one solution.",
     ["algebra/system.hpp", "algebra/coo.hpp", "current_density/simulation.cpp"],
     ["elimination of rows and columns with transfer to the right-hand side"],
     observe=["matrix entries and right-hand side before and after"],
     technique="algebraic differential monitor of elimination against a dense model", note="Compared entry by entry and through the solution.")
prop("C06", "Nonlinear expressions evaluate to the algebra they were built by",
     "An expression built by any sequence of additions and subtractions of constants, field-dependent terms and other expressions, itself included, evaluates for every assignment of material values to what that algebra gives, and a matrix of such expressions evaluates to the matrix of their values, every time it is re-evaluated. Copies are independent of their originals.",
     "inputs programs histories", "all programs of expression operations, all material assignments, repeated re-evaluation",
     "No unit test exercises nonlinear expressions at all.",
     ["algebra/non_linear.cpp", "algebra/non_linear.hpp"],
     ["term lists with copy/append", "re-evaluation of the compressed matrix"],
     observe=["evaluate() results", "matrix entries after each re-evaluation"],
     technique="random-program monitor against an algebraic model, ASan/UBSan", note="Includes self-addition and re-evaluation.")
prop("C07", "Geometric predicates give the exact answer away from ties",
     "Point-in-polygon, point-in-triangle, polygon containment, segment intersection, point-segment distance, angles, areas and orientation give the mathematically correct answer for every simple polygon and every query that is not ambiguous within rounding, independently of vertex order, orientation, position and size. Touching segments count as intersecting whichever way round they are given.",
     "inputs", "all simple polygons, segments and query points at any scale and offset, all vertex rotations and orientations",
     "The unit tests contain no geometry tests.",
     ["geometry/polygon.cpp", "geometry/segment.cpp", "geometry/vector.cpp", "geometry/common.hpp"],
     ["ray casting with vertex handling", "orientation-based intersection tests"],
     observe=["return values of predicates"],
     technique="differential monitor against exact integer geometry", note="Oracle uses 128-bit exact arithmetic on integer coordinates.")
prop("C08", "Enclosing circles enclose, and the minimum one is minimum",
     "The enclosing circle and the minimum enclosing circle of any non-empty point set contain every point up to rounding, and no circle containing all points is smaller than the minimum one by more than rounding; the input points are not changed. This holds for duplicated, collinear and cocircular points anywhere in the plane.",
     "inputs", "all finite point sets incl. degenerate ones, any offset and scale, any order",
     "No test calls them directly.",
     ["geometry/circle.cpp", "geometry/circle.hpp"],
     ["centre choice and radius", "Welzl's algorithm"],
     observe=["returned circle against every point", "minimality against brute force"],
     technique="brute-force geometric oracle over random/degenerate point sets", note="Minimality by enumeration of all pairs/triples.")
prop("C09", "A drawing is a consistent planar graph of what was drawn",
     "After any sequence of drawing calls, every drawn point occurs once, every segment joins two distinct existing points and occurs once, no two segments cross, and every drawn shape's edges are present; a shape that would cross an existing one, or run into it between common points, is rejected by an exception whatever the order and direction of drawing. Refining points never move or remove what was drawn, and equal materials share one region identifier.",
     "histories inputs", "all sequences of rectangles, circles, polygons, points, regions, translations and refinements",
     "The tests draw a few fixed shapes and never an invalid one.",
     ["drawing/drawing.hpp", "geometry/segment.cpp", "geometry/polygon.cpp"],
     ["point and segment deduplication", "crossing check on insertion", "region map"],
     observe=["point, segment, polygon and region lists after each call"],
     technique="state-invariant monitor with exact integer geometry model", note="Judged after each operation.")
prop("C10", "Meshes are valid, conforming and respect the drawing",
     "Every mesh of a valid drawing is a conforming triangulation of exactly the drawn area: triangles have distinct valid vertices, positive area no larger than requested and angles no smaller than requested (for requests up to the 20 degrees the refinement can guarantee), edges are shared by at most two triangles, every drawn point and segment appears in the mesh, and every triangle carries the material of the face it lies in. The boundary marks distinguish exactly the vertices of the outer boundary, and the mesh tolerance is half the shortest edge.",
     "inputs configurations", "all valid drawings, all area bounds (any magnitude) and minimum angles up to the supported maximum",
     "The tests mesh a few fixed drawings and check nothing about the mesh.",
     ["mesh/mesh.hpp", "triangle/triangle.cpp", "drawing/drawing.hpp"],
     ["conversion of the drawing to mesher input and switches", "area and angle constraints", "region attributes"],
     observe=["mesh data after meshing"],
     technique="mesh-invariant monitor over generated planar drawings, with ASan/UBSan", note="Exact face areas and face membership from the generator's integer geometry.")
prop("C11", "The open boundary closes the domain without gaps",
     "After a magnetostatic system is generated, the mesh is the inner disc joined to an exterior shell along every boundary vertex and edge: no boundary edge is left unmatched, no vertex is duplicated or non-finite, all exterior triangles have the default material, and the exterior has the mirror images of an unbounded region beyond the boundary circle. The boundary circle encloses the drawing with margin and the far-field reference nodes are fixed to zero.",
     "inputs configurations", "all drawings, positions, sizes, area bounds and angle bounds",
     "No test inspects the generated magnetostatic mesh.",
     ["mesh/mesh.hpp", "magnetostatic/simulation.cpp", "magnetostatic/mesh.cpp"],
     ["boundary circle drawing", "Kelvin inversion", "matching of boundary vertices and merging of the two meshes"],
     observe=["merged mesh topology and geometry", "generated system"],
     technique="topology/geometry monitor on the merged mesh", note="Checks every edge and vertex of every generated mesh.")
prop("C12", "The conduction system equals the exact finite-element assembly",
     "For every mesh, conductivity distribution and thickness the generated conduction system equals the sum of the linear-triangle element conductances: symmetric, with zero row sums, positive energy for every non-constant potential, a zero right-hand side, and proportional to conductivity and thickness.",
     "inputs configurations", "all meshes, conductivities, thicknesses and material layouts",
     "The tests check the solution of one geometry to a loose tolerance.",
     ["current_density/mesh.cpp", "current_density/simulation.cpp", "mesh/mesh.hpp"],
     ["per-vertex assembly over adjacent triangles"],
     observe=["assembled matrix and right-hand side"],
     technique="independent element-wise re-assembly oracle over generated meshes", note="Independent assembly in long double from mesh geometry and the generator's materials.")
prop("C13", "Conduction solutions obey the laws of resistive conduction",
     "The solved potential takes the prescribed values at the electrodes, stays between the extreme prescribed values, conserves current at every other node (so the current in equals the current out), is linear in the prescribed voltages, and gives the exact resistance of series and parallel bars. Parts not connected to an electrode do not corrupt the rest.",
     "inputs configurations", "all drawings, materials, electrode positions and voltages",
     "The tests compare one solution of one geometry to recorded values.",
     ["current_density/simulation.cpp", "current_density/mesh.cpp", "algebra/solvers.cpp", "algebra/system.hpp"],
     ["nearest-node electrode", "Dirichlet elimination", "SSOR conjugate gradient"],
     observe=["solution vector", "nodal current balance"],
     technique="physics-law monitors and analytic references on solved systems", note="Kirchhoff residual, maximum principle, superposition, exact bar resistances.")
prop("C14", "Layered conductors equal the connected circuit",
     "The system of several layers is the layers' own systems side by side, joined by each interconnection as a resistor of exactly the given resistance between the two named points, any number of interconnections between any layers (also parallel ones and ones within one layer). The solved voltages give currents that balance across interconnections, and the power density is conductivity times the squared field in every triangle.",
     "inputs configurations", "all layer counts, thicknesses, drawings and sets of interconnections",
     "No unit test covers several layers.",
     ["current_density/multilayer_simulation.cpp", "current_density/mesh.cpp"],
     ["block merge with offsets", "resistor stamp", "per-layer power density"],
     observe=["merged system, solution and power density"],
     technique="independent circuit-stamp oracle and conservation monitors", note="Merged matrix is compared entry-wise with an independent one.")
prop("C15", "The magnetostatic system is the field equation of the drawing",
     "For every drawing of conductors, magnets and linear materials the generated system is the linear-triangle discretisation of the magnetostatic field equation: stiffness by the inverse permeability of each triangle's material, a source equal to the drawn current, and the equivalent surface currents of the drawn magnetisation. The solution scales with and superposes over the sources, and reproduces the analytic field of known arrangements.",
     "inputs configurations", "all drawings of currents, magnets and linear materials, all positions and sizes",
     "No test compares a magnetostatic result with anything.",
     ["magnetostatic/mesh.cpp", "magnetostatic/simulation.cpp", "algebra/non_linear.cpp", "magnetostatic/properties.cpp"],
     ["element assembly with nonlinear terms", "surface currents of magnets", "far-field reference"],
     observe=["system matrix and right-hand side", "solved potential and field"],
     technique="independent re-assembly oracle, superposition and analytic-field monitors", note="Assembly exact to rounding; analytic comparisons to discretisation tolerance.")
prop("C16", "Nonlinear materials follow their magnetisation curve",
     "The permeability of a material with a magnetisation curve is, for every flux density from zero to far beyond the last point, a finite positive slope of a segment of that curve, and the segment is the one containing (or nearest to) that flux density. The solved field of a nonlinear problem satisfies the field equation with the permeability that field itself implies, whenever such a field exists away from the corners of the curve.",
     "inputs configurations", "all monotone curves with two or more points, all flux densities including table points, all drawings",
     "No test uses a nonlinear material.",
     ["magnetostatic/properties.cpp", "magnetostatic/simulation.cpp", "algebra/non_linear.cpp"],
     ["curve lookup", "fixed-point iteration of permeability"],
     observe=["getMu values", "residual of the solved nonlinear system"],
     technique="reference curve lookup and self-consistency residual monitor", note="Curve lookup compared with an independent one; residual recomputed from the returned solution.")
prop("C17", "Gradient and curl are exact for linear potentials",
     "On every mesh, for every potential that is an affine function of position, the per-triangle gradient equals its constant gradient and the curl is (dA/dy, -dA/dx), the curl of a vector potential A along z, whatever the orientation, size and position of the triangles. Both are linear in the potential.",
     "inputs", "all meshes (also with exterior shells) and all affine potentials",
     "The tests never evaluate a derived field.",
     ["mesh/mesh.hpp"],
     ["plane fit through the three vertices of a triangle"],
     observe=["computeGrad / computeCurl results"],
     technique="analytic oracle on affine fields over generated meshes", note="Exact up to conditioning of each triangle.")
prop("C18", "Magnetic forces and torques obey mechanics",
     "The force on a body scales with the square of the sources, is opposite on the partner of an isolated pair, vanishes on an isolated body, matches the analytic force of known arrangements within discretisation error, and rotates with the drawing. The torque about a point satisfies the lever relation with the force, and the combined query agrees with the separate ones.",
     "inputs configurations", "all arrangements of bodies, positions, sizes and sources; all torque centres",
     "No test evaluates a force.",
     ["magnetostatic/simulation.cpp", "mesh/mesh.hpp", "geometry/polygon.cpp"],
     ["eggshell weighting function solved on the surrounding region", "Maxwell stress integration"],
     observe=["computeForceIntegrals, computeTorqueIntegral, computeStressIntegral"],
     technique="metamorphic and analytic monitors on computed forces", note="Tolerances reflect discretisation; metamorphic relations are tight.")
prop("C19", "Mass properties are those of the drawn body",
     "The area, mass, barycentre and moment of inertia computed for a body equal those of the drawn polygon that encloses the query point most closely, in the coordinates the user drew it in, to within rounding (and discretisation for the inertia), wherever in the plane and however oriented the body is.",
     "inputs configurations", "all polygons, positions, orientations, densities, thicknesses and nestings",
     "No test computes a mass property.",
     ["mesh/mesh.hpp", "geometry/polygon.cpp"],
     ["selection of the polygon around a point", "summation over the triangles inside it"],
     observe=["computeAreaIntegral, computeMass, computeBarycenter, computeInertiaMoment"],
     technique="exact polygon-moment oracle over generated bodies", note="Closed-form polygon moments as oracle.")
prop("C20", "Independent simulations may run at the same time",
     "Simulations that share no objects can be drawn, meshed, assembled, solved and evaluated concurrently from different threads, without data races and with results identical to those of running them one after another.",
     "schedules inputs", "all interleavings of independent simulations in several threads",
     "The tests are single-threaded.",
     ["mesh/mesh.hpp", "triangle/triangle.cpp", "algebra/solvers.cpp", "algebra/math.cpp", "geometry/circle.cpp", "utils/utils.cpp"],
     ["absence of shared mutable state"],
     observe=["ThreadSanitizer reports", "results compared with sequential runs"],
     technique="ThreadSanitizer + result equality under concurrent stress", note="Race detection on executed interleavings with randomised delays.")
prop("C21", "The Python interface is faithful and cannot crash the interpreter",
     "Simulations driven from Python give the results the C++ interface gives for the same drawing; arguments of wrong type or value and library errors raise a Python exception and leave the interpreter running; and repeated use does not leak references or memory.",
     "inputs programs", "all call sequences and argument values from Python, valid and invalid",
     "The only Python test is a script that does not pass here and samples one run.",
     ["python/nikfemm.cpp", "python/setup.py"],
     ["argument conversion, reference counting, exception translation"],
     observe=["return values compared with C++", "interpreter exit status", "reference counts and memory"],
     technique="differential, fault-injecting and leak monitors on the built extension (ASan build too)", note="Compares with an independent C++ driver.")
prop("C22", "Results do not depend on what ran before",
     "The same drawing, materials and parameters give bit-identical meshes, systems and results every time, in the same process or another one, whatever other simulations were run before or remain alive, and never depend on the address layout or uninitialised memory. Solving does not change the simulation, so solving again gives the same answer.",
     "histories inputs configurations", "all histories of other simulations in the process, repeated solving, fresh processes",
     "The tests run each scenario once.",
     ["mesh/mesh.hpp", "triangle/triangle.cpp", "magnetostatic/simulation.cpp", "current_density/simulation.cpp", "geometry/circle.cpp", "algebra/csr.cpp"],
     ["absence of hidden state in the mesher, the solvers and the drawing"],
     observe=["hashes of meshes, systems and solutions across histories and processes"],
     technique="history-differential monitor of result hashes across histories/processes/malloc fills", note="Bitwise equality.")
prop("C23", "Plots are finite, complete and leave the data alone",
     "Rendering a drawing or any field over a mesh, for any image size, field values (also constant ones), and any mesh, produces an image without undefined behaviour, whose covered area matches the meshed domain and whose colours are the colour map of the values, blue-to-red monotone in the field. Rendering never changes the mesh, the field or the drawing.",
     "inputs configurations", "all meshes, scalar and vector fields (constant and extreme ones), image sizes and flags",
     "No test renders anything.",
     ["mesh/mesh.hpp", "drawing/drawing.hpp", "utils/utils.cpp", "algebra/csr.cpp"],
     ["scaling of mesh to image", "percentile colour range", "filling of cells"],
     observe=["rendered pixels", "mesh and field before and after"],
     technique="pixel-level oracle plus ASan/UBSan in the OpenCV build", note="Off-screen rendering only.")
prop("C24", "Invalid input raises an exception and nothing else breaks",
     "Any input the library refuses (crossing segments, unmeshable drawings, out-of-range sizes, unknown points or regions, mismatched dimensions, malformed curves) is reported by a C++ exception thrown to the caller, never by ending the process or undefined behaviour, and after it the process can run other simulations with correct results.",
     "fault_sequences inputs programs", "all malformed inputs at every stage, followed by arbitrary valid use",
     "The tests use only valid input.",
     ["utils/utils.cpp", "mesh/mesh.hpp", "triangle/triangle.cpp", "current_density/multilayer_simulation.cpp", "magnetostatic/properties.cpp", "drawing/drawing.hpp"],
     ["exceptions from the error helper and from the mesher", "argument validation"],
     observe=["exceptions, exit status, results of following simulations"],
     technique="fault-injecting monitor: malformed inputs under ASan/UBSan followed by reference runs", note="Each refused call is followed by a reference simulation compared bitwise.")

UNCLAIMED = {}   # id -> reason

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(root, "vf"))
    import props
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in OUT:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "state": list(p["state"]), "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mech"]], "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in OUT:
        if p["id"] in props.PROPS:
            checks.append({"property": p["id"], "quick_cmd": "python3 vf/run.py %s" % p["id"], "thorough_cmd": "python3 vf/run.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": "runtime monitoring: " + p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": UNCLAIMED.get(p["id"], "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 vf/setup.py", "hooks": {"guard": "none", "enable": "no hooks: the monitors observe the public interface of the unmodified sources", "source_commits": []},
         "checks": checks, "not_applicable": na, "notes": "Every check builds the library from /repo's working tree (content-hashed cache in /verif/.build)."}
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main()
