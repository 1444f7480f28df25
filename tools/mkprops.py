#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

IO = ["meshmagick/mmio.py"]
CLI = ["meshmagick/cli.py", "meshmagick/mmio.py", "meshmagick/mesh.py"]
MESH = ["meshmagick/mesh.py"]

prop("C01", "Writing a mesh and reading it back gives the same mesh",
     "For every format meshmagick can both write and read, and every mesh of triangles and quadrangles (including meshes of one, two or three faces), loading the written file gives the same set of faces at the same coordinates with the same orientation, to the printed precision of the format. This holds however the operating system splits, shortens or interrupts the reads and writes that carry the file. Every file written is also a complete, well-formed file of its format for an independent strict reader.",
     ["inputs", "schedules", "configurations"],
     "all meshes x all 13 read/write formats x all legal (short, split, interrupted) read/write schedules x all wall-clock values and locales used for the date stamp",
     "tests/test_IO.py writes one sample mesh in every format and loads the files back without comparing anything; no test varies mesh size, mixed triangle/quad content or I/O schedule.",
     IO, [("per-format load_X/write_X pairs dispatched by load_mesh/write_mesh", "meshmagick/mmio.py: extension_dict")],
     ["load_mesh(write_mesh(V, F))", "file contents"])

prop("C02", "A write that fails is always reported",
     "If any system call needed to write the output file fails (file cannot be opened, device full, quota, I/O error, failure reported at close), the library call raises an exception, and the command line exits with a nonzero status. It never reports success while the file on disk is missing, empty or truncated.",
     ["fault_sequences", "crash_points", "configurations"],
     "every write format x every system call of the write path x every error (EACCES, EROFS, ENOENT, EMFILE, ENOSPC, EDQUOT, EIO, EFBIG) x every amount of free space",
     "No test makes a write fail.",
     IO + ["meshmagick/cli.py"],
     [("Python file objects raise OSError on write/close", "meshmagick/mmio.py: write_*"),
      ("VTK writers return a status", "meshmagick/mmio.py: write_VTU, write_VTP"),
      ("uncaught exceptions give a nonzero exit", "meshmagick/cli.py: main")],
     ["exception from write_mesh", "exit status", "file contents"])

prop("C03", "Acknowledged output survives abrupt termination",
     "Once a write call has returned, the whole file has been handed to the operating system: killing the process at any later instant leaves the complete file on disk. The same holds for every output file of a command-line run that ended with status 0.",
     ["crash_points", "histories"],
     "every format x every system call as the kill point, and the instant immediately after the call returns, with several meshes written in one process",
     "No test kills a process; an unclosed or unflushed file is flushed at interpreter exit, so in-process tests cannot see it.",
     IO + ["meshmagick/cli.py"],
     [("files are closed before the writer returns", "meshmagick/mmio.py: write_*")],
     ["file contents after SIGKILL-like termination"])

prop("C04", "A damaged or failing input never silently yields a mesh",
     "If an input file is cut short at any byte, or a read error happens while it is being loaded, loading either raises an exception or returns exactly the mesh of the complete file; it never returns a partial, empty or altered mesh as if the file were sound. The only exception is a cut after which the remaining text is itself a complete file of the format, in which case exactly that mesh is returned (a file without any face is not a complete mesh file). A file in which numbers were altered so that faces refer to vertices it does not contain, coordinates are not numbers or no face is left is refused as well. This holds for every readable format.",
     ["inputs", "fault_sequences", "crash_points"],
     "every readable format x every mesh x every truncation point, altered number and read-side system-call failure",
     "Tests only load intact sample files.",
     IO, [("parsing code raises on malformed text", "meshmagick/mmio.py: load_*"),
          ("VTK readers report errors through events", "meshmagick/mmio.py: load_VTU/VTP/VTK/OBJ/STL/WRL")],
     ["return value or exception of load_mesh"])

prop("C05", "Loading always terminates",
     "Loading any file, however truncated or altered, returns or raises within a number of steps bounded by a small multiple of the file size; it neither loops waiting for data that will not come nor crashes the interpreter. The same holds when reads are short, interrupted or fail.",
     ["inputs", "fault_sequences", "schedules"],
     "every readable format x every truncation, alteration or failing read x short-read schedules",
     "No test loads an incomplete file.",
     IO, [("loops over lines of the file end at end of file", "meshmagick/mmio.py: load_GDF, load_MAR, load_NAT, load_NEM, load_PNL")],
     ["number of executed steps and system calls"])

prop("C06", "Reading and writing meshes has no side effects",
     "Loading a mesh only reads: it does not modify, create, delete or open for writing any file; writing a mesh touches only the output file; neither changes (nor needs to be able to change) the arrays or mesh objects passed in; and neither leaves a file descriptor open. This holds both when the call succeeds and when it fails part-way.",
     ["histories", "fault_sequences", "configurations"],
     "every format x sequences of loads and writes in one process x every injected failure point",
     "No test inspects its input arrays after a write, other files, or descriptors.",
     IO, [("writers build separate arrays for output", "meshmagick/mmio.py: write_*"),
          ("files are closed on all paths", "meshmagick/mmio.py")],
     ["arrays before/after", "directory snapshot", "open descriptors"])

prop("C07", "A failing command leaves input and previous output intact",
     "If the command-line tool fails or is killed before it starts writing its results, the input file and any file that already exists under the output name keep their exact previous contents and nothing else appears in the output directory. Even a run that fails while writing never changes its input file when the output name is different.",
     ["crash_points", "fault_sequences", "configurations"],
     "all option combinations x all failures and kill points up to the opening of the output file",
     "Tests never run the command line with failing inputs, options or system calls.",
     ["meshmagick/cli.py", "meshmagick/mmio.py"],
     [("results are written as the last step of the run", "meshmagick/cli.py: main")],
     ["directory contents before/after"])

prop("C08", "Exit status 0 means the documented processing result was written",
     "A command-line run that exits with status 0 has written, under the requested name and format, exactly the mesh obtained by applying the requested operations in the documented order to the input mesh(es). If any requested step could not be carried out (unreadable input, unknown format, invalid option value, internal error, failed system call), the exit status is nonzero.",
     ["configurations", "inputs", "fault_sequences"],
     "all combinations of the mesh-processing options x input meshes and formats x injected faults",
     "No test runs the command line.",
     CLI, [("fixed processing order in one function", "meshmagick/cli.py: main"),
           ("extension_dict decides formats", "meshmagick/cli.py")],
     ["exit status", "output file"])

prop("C09", "The output depends only on the input file and the options",
     "Two runs with the same input contents and options produce byte-identical output files apart from the date stamp in comment lines, whatever the wall clock, hash seed, environment variables, working directory, available memory layout or I/O schedule. Two conversions performed in one process are as independent as two separate runs.",
     ["schedules", "configurations", "histories"],
     "all option combinations x clock values and jumps x hash seeds x environments x I/O schedules x preceding runs in the same process",
     "No test runs the command line, and none compares two runs.",
     CLI, [("no ambient state is consulted besides time.strftime for comments", "meshmagick/mmio.py")],
     ["output bytes", "standard output"])

prop("C10", "Derived data always describe the current mesh",
     "After any sequence of mesh operations (transformations, merging, healing, triangulation, flipping, mirroring, setting vertices or faces) interleaved with any queries, everything the mesh reports (face areas, normals, centres, triangle and quadrangle lists, neighbourhood relations, boundaries, closedness and conformity, surface integrals, inertias, bounding boxes, volume, edge lengths) equals what a newly built mesh with the same vertices and faces reports, and areas, normals, centres, neighbourhoods, boundaries, integrals and edge lengths are those their elementary definition gives for the current vertices and faces.",
     ["histories", "programs"],
     "all sequences of mesh operations and queries, in any order, on meshes of triangles and quadrangles, open or closed",
     "Tests call one operation on a fresh mesh; the defect class (stale cached data) needs a query, then an operation, then a second query.",
     MESH, [("cached properties are dropped or updated by each operation", "meshmagick/mesh.py: __internals__, _remove_*_properties")],
     ["public properties of Mesh"], [("__internals__", "cache of derived data", "meshmagick/mesh.py")])

prop("C11", "An interrupted or failed operation leaves the mesh coherent",
     "If a mesh operation is interrupted at any point (keyboard interrupt) or fails (memory exhausted, invalid argument), the mesh afterwards holds either its previous or its new geometry, never a mixture, and everything it then reports describes that geometry. The same operation can then be carried out normally.",
     ["fault_sequences", "crash_points", "histories"],
     "all mesh operations x all interruption points x all failing allocations, after any history",
     "No test makes an operation fail part-way.",
     MESH, [("operations replace whole arrays and drop or update caches", "meshmagick/mesh.py")],
     ["geometry and derived data after the failure"], [("_vertices, _faces, __internals__", "geometry and cache", "meshmagick/mesh.py")])

prop("C12", "Mesh operations compose like the transformations they name",
     "Any sequence of translate, rotate, scale, mirror, symmetrize, flip-normals, triangulate, concatenate, extract, duplicate-merging and degenerate-face-removal operations gives exactly the mesh obtained by applying the elementary definition of each operation in turn to plain coordinate and connectivity lists, to rounding. The result does not depend on which quantities were queried in between.",
     ["histories", "programs"],
     "all sequences of operations and interleaved queries",
     "Tests call single operations on one sample mesh, mostly without looking at the result.",
     MESH, [("operations act on vertices/faces arrays", "meshmagick/mesh.py")],
     ["vertices and faces"])

prop("C13", "Meshes and returned results do not share state",
     "Changing a mesh never changes any other mesh: copies, extracted faces, concatenations, symmetrized or clipped meshes, and the arrays a mesh was built from all stay as they were. A result previously obtained from a mesh keeps its value when the mesh is later changed, and changing an array returned by a loader or used to build a mesh after copying does not change the mesh. Writing in what one mesh returned never changes what another answers.",
     ["histories", "programs"],
     "all sequences of creations, copies, derivations, queries and in-place operations over several meshes",
     "Tests do not modify an object and then look at another one.",
     MESH + ["meshmagick/mesh_clipper.py"],
     [("copy() and derivations copy arrays", "meshmagick/mesh.py"), ("operations rebind arrays instead of writing in place", "meshmagick/mesh.py")],
     ["all live meshes and retained results"])

prop("C14", "Concurrent read-only use of a mesh gives the sequential answers",
     "Any number of threads may query the same mesh at the same time: each query returns the value a single-threaded program would get, whichever thread first triggers the computation and however the threads are interleaved. No query raises because of another query.",
     ["schedules"],
     "all sets of concurrent queries (areas, normals, centres, adjacency, boundaries, integrals, volume, edges, bounding boxes) x all thread interleavings",
     "Tests are single-threaded.",
     MESH, [("derived data are stored only once complete", "meshmagick/mesh.py: __internals__")],
     ["return values in each thread"], [("__internals__", "shared lazily filled cache", "meshmagick/mesh.py")])

prop("C15", "Independent work in several threads or sessions does not interfere",
     "Threads (or interleaved sessions) that each load, transform, clip, analyse and write their own mesh, plane and hydrostatics objects produce exactly the results each would produce alone, under every interleaving. No default argument, class attribute, module variable or global numeric setting carries information from one session to another.",
     ["schedules", "histories"],
     "all interleavings of several independent sessions over loading, mesh operations, clipping, hydrostatics, inertia and writing",
     "Tests run one session at a time in one thread.",
     ["meshmagick/mesh.py", "meshmagick/mesh_clipper.py", "meshmagick/hydrostatics.py", "meshmagick/inertia.py", "meshmagick/mmio.py"],
     [("objects own their state; no module-level mutable state", "all modules")],
     ["results of each session"], [("default plane of the clipper", "a default argument shared by all clippers", "meshmagick/mesh_clipper.py")])

prop("C16", "Concurrent command-line runs do not interfere",
     "Several command-line runs in one directory, reading the same or different inputs and writing different outputs, each give the output and exit status they would give alone, under every interleaving of their file operations and when any of them is killed or hits an I/O error. No run needs or leaves an auxiliary file that another run could pick up.",
     ["schedules", "crash_points"],
     "all interleavings of the file operations of two or three runs x kill points and I/O errors in any of them",
     "Tests run a single process.",
     ["meshmagick/cli.py", "meshmagick/mmio.py"],
     [("each run opens only its input and output", "meshmagick/cli.py")],
     ["output files and exit statuses"])

prop("C17", "A clipper always reports results for its current mesh, plane and tolerance",
     "Whatever sequence of plane and tolerance settings, queries, failures and interruptions a mesh clipper has gone through (including a plane or source mesh that was modified before the plane or tolerance was set again), each result it returns is the one a newly built clipper with its current mesh, plane and tolerance gives, or an exception; a plane that the mesh crosses is not refused unless closed curves are asserted. The lower, crown and upper meshes are together exactly the faces of the source mesh, lying under, across and above the plane; the clipped mesh lies under the plane and, together with what the flipped plane keeps, has the area of the source mesh; the intersection curves lie on the plane and bound the clipped part. The source mesh is never changed, nor any result handed out before.",
     ["histories", "fault_sequences"],
     "all sequences of reconfigurations and queries x failing allocations, interruptions and non-intersecting planes",
     "tests/test_clipping.py sets the plane of one clipper 50 times and looks at no result.",
     ["meshmagick/mesh_clipper.py"],
     [("setters drop internal data and recompute", "meshmagick/mesh_clipper.py: MeshClipper")],
     ["lower_mesh, upper_mesh, closed/opened polygons"], [("__internals__", "cached partition and polygons", "meshmagick/mesh_clipper.py")])

prop("C18", "Hydrostatics calculations are repeatable and leave their input unchanged",
     "Computing hydrostatic properties or an equilibrium never changes the mesh or arrays passed in, gives the same answer when repeated, when preceded by other calculations or when run beside others in threads, and reports displaced volume, wetted surface, buoyancy centre, waterplane area, centre and moments, metacentric radii, stiffness, submerged and waterline lengths equal to those of the immersed part of the mesh under the flat free surface. What was returned stays as it was whatever is done afterwards with the mesh or the arrays passed in. An equilibrium returned has the requested displacement (and the buoyancy centre above the centre of gravity). When the calculation cannot be completed (mesh not crossing the water surface, no convergence, memory exhausted, interrupt), this is signalled and never returned as a result.",
     ["histories", "fault_sequences"],
     "all sequences of hydrostatic computations on several meshes and settings x failing allocations, interruptions and unreachable targets",
     "The assertions of tests/test_hydrostatics.py are commented out.",
     ["meshmagick/hydrostatics.py", "meshmagick/mesh_clipper.py"],
     [("the input mesh is copied before being moved", "meshmagick/hydrostatics.py: compute_hydrostatics, displacement_equilibrium, full_equilibrium")],
     ["returned dictionaries and matrices", "input mesh before/after"])

prop("C19", "Moving an inertia's reduction point is reversible and path independent",
     "Expressing a rigid body inertia at another point, in any number of steps and through any intermediate points, gives the same mass, centre of gravity and inertia matrix as doing it directly, and returning to the first point restores the original values; an interrupted move leaves the inertia expressed at the old or at the new point. Naming another centre of gravity (set_cog) moves that point only, not the mass. Reading values, copying, or changing arrays passed in or returned never changes the inertia object. The plain and shell inertias of a mesh describe the solid it encloses and its surface, whatever point they are expressed at.",
     ["histories"],
     "all sequences of reduction-point changes, queries and modifications of caller-held arrays, interrupted anywhere",
     "tests/test_inertia*.py perform a single move, judged to 10 %.",
     ["meshmagick/inertia.py", "meshmagick/mesh.py"],
     [("Huygens transport between reduction points", "meshmagick/inertia.py: RigidBodyInertia")],
     ["inertia_matrix, gravity_center, mass, reduction_point, at_cog"])

prop("C23", "What a plane answers always describes its current normal and position",
     "After any sequence of changes of a plane (normal or scalar parameter set, normal rotated or given by angles, both updated together, flipped), each possibly interrupted, its unit normal is the composition of those changes and the distances, projections, edge intersections, in-plane coordinates, angles and origin it gives are those of that normal and position: in-plane coordinates form a right-handed frame whose origin is the plane's and whose third coordinate is the signed distance, whatever way the normal was reached. Changing a plane never changes another plane, arrays passed in or arrays handed out before; using one to clip or symmetrize a mesh leaves it as it was; an unusable value is refused and leaves it as it was.",
     ["histories", "fault_sequences"],
     "all sequences of changes and questions over several planes and the arrays they share, interrupted anywhere",
     "Tests make a few calls on one plane and do not look at the answers.",
     ["meshmagick/mesh.py"],
     [("normal, scalar and the derived rotation matrix are stored side by side", "meshmagick/mesh.py: Plane")],
     ["normal, c and the answers of the plane's methods"])

prop("C24", "The numbers a command prints and reports describe the mesh it writes",
     "When a meshmagick command exits with status 0, every number on its standard output and in its report file is that of the mesh: the mesh summary (-i) and the hydrostatic report (-hs, --hs-report: corrections, waterplane, wetted surface, displacement, centres, lengths, perpendiculars, metacentric data, stability warnings, stiffness, inertias) of the output mesh, the plain and shell inertias of the mesh the options made of the input before any equilibrium correction, for the density, thickness, gravity, centre of gravity, displacement, lpp and origin options given. A command that cannot compute them, or cannot write all of them (standard output or report file failing), exits with a non-zero status.",
     ["fault_sequences", "inputs"],
     "all combinations of computation options and transformations x input, output, report and standard output failures and short transfers",
     "No test runs the command line or reads its report.",
     ["meshmagick/cli.py", "meshmagick/hydrostatics.py", "meshmagick/mesh.py"],
     [("option to computation wiring", "meshmagick/cli.py: main"), ("report formatting", "meshmagick/hydrostatics.py: get_hydrostatic_report")],
     ["standard output", "report file", "exit status", "output mesh"])

prop("C25", "A mesh file made by another program is read as it describes",
     "For every readable format, a sound file laid out the way other programs lay it out (nodes numbered in any order, with or without gaps, where the format numbers them; any number notation, white space and line ends; text, binary, appended or compressed data; optional sections, several bodies or frames, points and lines beside the faces) is loaded as exactly the mesh it describes, by the library and by the command line, however the operating system splits or interrupts the reads. A file whose cells or layout the arrays cannot hold (strips, polygons of five corners and more, volume cells, PNL symmetries, unknown versions) is refused and never read as some other mesh; a MAR, NAT or GDF file that declares a symmetry gives the half it lists.",
     ["inputs", "fault_sequences"],
     "all meshes, all layouts each format allows and all schedules of short and interrupted reads",
     "Tests load one file per format, most written by meshmagick itself, and do not look at the result.",
     ["meshmagick/mmio.py"],
     [("one hand-written or VTK-based reader per format, built around the layout one program writes", "meshmagick/mmio.py: load_*")],
     ["vertices and faces returned", "exception", "exit status and output of a conversion"])

# Pure functions: listed because users rely on them, not claimed by this family of technique.
prop("C20", "Rotation conversions are mutually consistent",
     "Converting between Cardan angles, axis and angle, unit quaternions and matrices preserves the rotation, and every matrix produced from a unit vector or angles is orthogonal with determinant one.",
     ["inputs"], "all rotation angles and axes including half turns and zero",
     "No test of the suite covers rotations.py.", ["meshmagick/rotations.py"],
     [("closed-form conversion functions", "meshmagick/rotations.py")], ["returned matrices and angles"])
prop("C21", "Analytic solids have the textbook inertia",
     "The inertia of each elementary solid or shell (cylinder, cone, prism, sphere, ellipsoid, torus, wedges, pyramid, hollow and shell variants) equals the handbook value for its dimensions and density, and density lookups return the tabulated value.",
     ["inputs"], "all dimensions and densities",
     "Tests compare one cylinder, to 10 %.", ["meshmagick/inertia.py", "meshmagick/densities.py"],
     [("closed-form formulas", "meshmagick/inertia.py")], ["returned inertia"])
prop("C22", "Duplicate merging honours its tolerance",
     "Merging duplicate rows gives equal rows the same representative, never merges two rows that differ by more than the requested tolerance in a coordinate, merges every group of rows that lie within the tolerance of each other and further than it from all others in every coordinate, and returns a table that maps every input row to its representative.",
     ["inputs"], "all arrays and tolerances",
     "Tests call merge_duplicates once without looking at the result.", ["meshmagick/tools.py"],
     [("lexicographic column-wise bloc splitting", "meshmagick/tools.py: merge_duplicate_rows")], ["returned array and table"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sch)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
