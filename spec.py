#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 spec.py` rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

# id, title, statement, over, quantifier text, why tests cannot settle it, files, mechanisms
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, state=state))


MAT, NET, MESH = "src/fibermat/mat.py", "src/fibermat/net.py", "src/fibermat/mesh.py"
MODEL, SOLVER, INTERP = "src/fibermat/model.py", "src/fibermat/solver.py", "src/fibermat/interpolation.py"
RENDER, WIDGETS, ROOTW = "src/fibermat/render.py", "src/fibermat/widgets.py", "widgets.py"

prop("P01", "A generated mat has the requested fibers, inside the box",
     "A random mat generated from any valid parameters contains exactly the requested number of fibers, labelled 0..n-1, each with the requested length, width, thickness and moduli. All centres lie within half a box size of the origin in x, y and z, with z increasing along the labels. Every direction is a unit vector whose in-plane angle is within theta/2 of the x axis and whose out-of-plane angle is within psi/2, and the mat records its number of fibers and box size.",
     ["inputs", "configurations"], "all n (0 included), dimensions, box sizes, angular openings, moduli and seeds",
     "The tests generate two mats with default parameters and seed 0; dimensions, openings, out-of-plane angles and moduli other than the defaults are never generated.",
     [MAT], [("Mat.init", MAT + ":Mat.init")],
     "property-based testing: generated parameters against a domain predicate",
     "Search over generated parameter sets; exact comparison of dimensions, 1e-9 relative tolerances on geometry.")

prop("P02", "Random positions and orientations are uniform and independent",
     "Fiber positions are uniformly distributed in the box in each direction, in-plane angles uniformly in [-theta/2, theta/2] and out-of-plane angles uniformly in [-psi/2, psi/2]. These quantities are mutually independent. Different seeds give different mats.",
     ["inputs", "configurations"], "all seeds, box sizes and angular openings",
     "The tests compare one 10-fiber and one 100-fiber mat with stored values at one seed; no statistical statement is tested and no other seed or opening is used.",
     [MAT], [("Mat.init random draws", MAT + ":Mat.init")],
     "property-based testing: generated mats against the analytic distributions (KS and rank-correlation statistics with thresholds that random data cannot reach)",
     "Statistical oracle on large generated mats; detection threshold p < 1e-9, so a small distortion of the distribution can pass.")

prop("P03", "Results depend only on the arguments, not on history",
     "Building the same mat, network, stack, mesh, system matrices or solution twice from equal arguments gives equal results. This holds whatever was computed in between: other objects built, modified or rendered, and whatever the state of the global random generator. A mat built with a given seed is always the same.",
     ["histories", "inputs"], "all sequences of library calls and random-generator uses between two equal calls",
     "The tests run one fixed sequence in a fresh process; they never repeat a call after other work.",
     [MAT, NET, MESH, MODEL, SOLVER], [("np.random.seed in Mat.init", MAT + ":Mat.init")],
     "stateful property-based testing: generated call histories against values recorded at first evaluation",
     "Model-based histories; equality is bit-for-bit within one process.")

prop("P04", "Only well-formed mats are accepted",
     "Checking (or constructing) a mat accepts every table of fibers that satisfies the documented conditions. It raises KeyError for a missing column, AttributeError for a missing attribute, IndexError for labels that are not 0..n-1 in order, and ValueError for a wrong fiber count, a non-positive or undefined dimension or modulus, a centre outside the box in x or y, or a direction that is not a unit vector. When the skip_check attribute is set, it accepts anything with a warning.",
     ["inputs"], "all well-formed mats and all single corruptions of them, anywhere in the table",
     "The tests only check that generated mats are accepted; no rejection path is tested.",
     [MAT], [("Mat.check", MAT + ":Mat.check")],
     "property-based testing: generated valid mats and generated corruptions against the documented error contract",
     "Corruption operators cover every documented condition, at random rows and magnitudes.")

prop("P05", "Only well-formed networks and stacks are accepted",
     "Checking (or constructing) a network or a stack accepts every well-formed table of connections. It raises KeyError for a missing column, AttributeError for a missing attribute, IndexError for labels that are repeated, missing or unsorted, TypeError for non-integer fiber labels, and ValueError for fiber labels out of range, repeated connections or a pair that is not ordered A <= B. When the skip_check attribute is set, it accepts anything with a warning.",
     ["inputs"], "all well-formed networks and all single corruptions of them, anywhere in the table",
     "The tests only check that built networks are accepted; no rejection path is tested.",
     [NET], [("Net.check", NET + ":Net.check"), ("Stack.check", NET + ":Stack.check")],
     "property-based testing: generated valid networks and generated corruptions against the documented error contract",
     "Corruption operators cover every documented condition.")

prop("P06", "Only well-formed meshes are accepted",
     "Checking (or constructing) a mesh accepts every well-formed mesh. It raises KeyError for a missing column, AttributeError for a missing attribute, IndexError for node labels that are repeated, missing or unsorted, TypeError for non-integer labels, and ValueError for labels out of range, unsorted fibers or nodes, beams that do not link each node to the next of its fiber, constraints that are not reciprocal, or fiber ends that are not their own constraint. When the skip_check attribute is set, it accepts anything with a warning.",
     ["inputs"], "all well-formed meshes and all single corruptions of them, anywhere in the table",
     "The tests only check that built meshes are accepted; no rejection path is tested.",
     [MESH], [("Mesh.check", MESH + ":Mesh.check")],
     "property-based testing: generated valid meshes and generated corruptions against the documented error contract",
     "Corruption operators cover every documented condition.")

prop("P07", "Building and solving leave the input data unchanged",
     "Building a network or a mesh, computing stacking heights, assembling matrices, solving, plotting the system and exporting to VTK leave every value of the fiber table, network and node positions they are given unchanged. The only documented exceptions are that stacking updates the heights z of the mat it is given, and that assembling constraints adds the fiber thickness to the mesh. Copy-constructing a mat, network, stack or mesh from an existing one gives an equal object with equal attributes.",
     ["inputs", "histories"], "all mats, networks, meshes and parameters, and all orders of these calls",
     "No test compares an object before and after a call.",
     [MAT, NET, MESH, MODEL, SOLVER, RENDER], [("copies in Net.init / Mesh.init", NET + ":Net.init")],
     "stateful property-based testing: snapshots of all live objects before and after every call",
     "Values, column order, index and attributes are compared bit-for-bit (the periodic attribute set by network building excepted).")

prop("P08", "Connections are the nearest points of their two fibers",
     "Every connection of a network refers to two distinct existing fibers A < B and gives a node on each, at an abscissa no further than half the fiber length from its centre, with coordinates equal to the fiber centre plus abscissa times direction. The two nodes are the nearest points of the two fiber lines (up to a translation of one of them by whole box sizes when the network is periodic). For in-plane fibers they are vertically aligned, one exactly above the other.",
     ["inputs"], "all mats (any number, lengths, positions, in-plane and out-of-plane orientations), periodic or not",
     "The tests compare a handful of values on one mat with default dimensions and in-plane fibers.",
     [NET], [("Net.init normal equations and abscissa filter", NET + ":Net.init")],
     "property-based testing: generated mats against a closed-form nearest-point predicate",
     "Exact geometry re-derived per connection; tolerance 1e-7 relative to the box size.")

prop("P09", "A bounded network contains every crossing exactly once",
     "In a non-periodic network of in-plane fibers, two fibers are connected if and only if their segments cross, with exactly one connection per crossing pair, and each fiber has exactly one connection to itself carrying its two end points. For out-of-plane fibers every connection still has its nodes on both fibers, and every pair whose nearest points are inside both fibers and whose centres are less than a mean fiber length apart horizontally is connected. When candidate pairs are given explicitly, the connections are exactly those of the full network among the given pairs.",
     ["inputs"], "all mats, including equal, parallel, collinear and touching fibers, and all lists of candidate pairs",
     "The tests check the number of connections of a few hand-made mats (one to four fibers).",
     [NET], [("Net.init pair enumeration and filters", NET + ":Net.init")],
     "property-based testing: differential against an independent segment-crossing reference",
     "Crossings closer than 1e-7 to a fiber tip may go either way.")

prop("P10", "A periodic network is the network of the periodically repeated mat",
     "In a periodic network of in-plane fibers (not longer than the box), two fibers are connected if and only if one of them crosses the other or one of its images translated by whole box sizes, with exactly one connection per pair, at an abscissa pair where such a crossing takes place; each fiber has exactly one connection to itself, at its two end points. The set of connected pairs and their crossings do not change when the whole mat is translated and wrapped back into the box. Node coordinates are those on the original fibers, not on their images.",
     ["inputs", "configurations"], "all mats, fiber lengths up to the box size, and all translations",
     "The tests use periodic networks at one seed and compare one stored table; no image crossing is recomputed.",
     [NET], [("Net.init duplicates along boundaries", NET + ":Net.init")],
     "property-based testing: differential against explicit image enumeration, plus a metamorphic translation relation",
     "Fibers up to one box size; crossings within 1e-7 of a tip may go either way.")

prop("P11", "Networks follow the geometry: rotations, mirrors, scale, labels",
     "Rotating a mat by a quarter turn, mirroring it, scaling all lengths, translating it horizontally (bounded networks) or vertically, or reversing the direction of a fiber maps its network exactly: the same pairs are connected at the same abscissae, up to the scale factor, the transformed coordinates and the sign of the reversed fiber's abscissae. Renumbering the fibers renumbers the connections and changes nothing else. A bounded network is a subset of the periodic one as far as connected pairs are concerned.",
     ["inputs"], "all mats and all such transformations",
     "The tests never compare networks of two related mats.",
     [NET], [("Net.init", NET + ":Net.init")],
     "property-based testing: metamorphic relations between networks of transformed mats",
     "Tolerances 1e-7 relative; pairs with a crossing within 1e-7 of a tip are left out.")

prop("P12", "Stacked fibers rest as low as possible without interpenetration",
     "After stacking, each fiber is at the lowest height that keeps it above the floor and above every connected fiber of lower label by half the sum of their thicknesses; every fiber therefore rests on the floor or touches a fiber below it. The heights in the mat are the ones used for the node positions of the stack. Nothing else in the mat changes, and stacking again leaves the heights unchanged.",
     ["inputs"], "all networks of in-plane fibers, with any thicknesses, widths and lengths, periodic or not",
     "The tests compare total heights with a longest path on three seeds with uniform fibers.",
     [NET], [("Stack.solve linear program", NET + ":Stack.solve"), ("Stack.constraint", NET + ":Stack.constraint")],
     "property-based testing: differential against an exact longest-path height model",
     "Heights compared with tolerance 1e-6 of the largest thickness.")

prop("P13", "Stacking contact forces balance the weight of every fiber",
     "The solution returned by the stacking solver carries one non-negative supporting force per connected pair and one per floor contact, such that every fiber is in balance: its weight (pi/4 times length times width times thickness) plus the forces of the fibers resting on it equals the forces that support it. Forces are zero wherever fibers do not touch. The floor carries the total weight of the mat.",
     ["inputs"], "all networks and fiber dimensions",
     "No test looks at the forces of the stacking problem.",
     [NET], [("Stack.solve duals", NET + ":Stack.solve"), ("Stack.constraint weights", NET + ":Stack.constraint")],
     "property-based testing: force-balance and complementarity invariants on generated mats",
     "Relative tolerance 1e-6 of the total weight.")

prop("P14", "Stacking keeps the network; the threshold only removes far pairs",
     "A stack built without threshold has the connected pairs, abscissae and horizontal positions of the network it is given, also when that network connects only some of the fibers that cross. With a threshold, it contains exactly those of these connections whose nodes are not further apart vertically than the threshold (a distance equal to the threshold is kept), plus every fiber's connection to itself. A stack is therefore monotonic in the threshold, and its periodicity is that of the network.",
     ["inputs", "configurations"], "all mats, thresholds (zero, negative, infinite and exact distances included), periodic or not",
     "No test uses a threshold.",
     [NET], [("Stack.init mask", NET + ":Stack.init")],
     "property-based testing: differential against a filtered reference network",
     "Distances within 1e-9 of the threshold are only decided where the heights are exactly representable.")

prop("P15", "The mesh has one node per connection end, mutually linked",
     "A mesh has exactly two nodes per connection of its network, each on the fiber, at the abscissa and at the coordinates the connection gives for it. Each node's constraint is the node at the other end of the same connection, and is the node itself exactly for the two ends of each fiber; the relation is reciprocal. The mesh keeps the attributes of the network.",
     ["inputs"], "all networks and stacks, including coincident nodes and thresholded stacks",
     "The tests check that constraints are reciprocal on a few default meshes, not that they link the nodes of the same connection.",
     [MESH], [("Mesh.init inter-fiber connections and reordering", MESH + ":Mesh.init")],
     "property-based testing: multiset bijection between generated networks and meshes",
     "Exact comparison of values.")

prop("P16", "Beams chain all nodes of each fiber from end to end",
     "Nodes are numbered fiber by fiber and by increasing abscissa along each fiber. Following beams from the first node of a fiber visits every node of that fiber exactly once, in order of abscissa, and comes back to the first. The first and last nodes are the fiber ends, and every fiber of the mat appears; node labels used by beams and constraints are those of the mesh.",
     ["inputs"], "all networks and stacks, including fibers without any crossing",
     "The tests check beam order on a few default meshes.",
     [MESH], [("Mesh.init sorting and np.roll", MESH + ":Mesh.init")],
     "property-based testing: chain invariant on generated meshes",
     "Exact comparison of values.")

prop("P17", "The stiffness matrix is the assembly of Timoshenko beams",
     "For any mesh the stiffness matrix equals the sum, over all beams between consecutive nodes of each fiber, of the documented Timoshenko element matrix with that fiber's width, thickness and moduli and the beam length. The beam lengths are first rescaled linearly so that the shortest becomes lmin and the longest lmax when these bounds are given inside the range of lengths, and the coupling factor multiplies the displacement-rotation terms only. Displacements, loads and their increments are initially zero vectors of matching size.",
     ["inputs", "configurations"], "all mats (mixed dimensions and moduli), meshes, lmin, lmax and coupling",
     "The doctests check one element with unit dimensions (three moduli) and coupling 1; assembly, mixed fibers, lmin, lmax and coupling are not tested.",
     [MODEL], [("stiffness", MODEL + ":stiffness")],
     "property-based testing: differential against an independent element-by-element assembly",
     "Entrywise relative tolerance 1e-9 (scaled by the largest entry of the element).")

prop("P18", "Stiffness is symmetric, stores no negative energy, frees rigid motion",
     "The stiffness matrix is symmetric and positive semi-definite for every mesh, moduli and coupling between 0 and 1. Raising a whole fiber stores no energy, and (with full coupling and unscaled lengths) tilting it rigidly neither; bending or shearing it does. Different fibers are not elastically coupled, and scaling all moduli scales the matrix.",
     ["inputs", "configurations"], "all mats, meshes, moduli and coupling in [0, 1]",
     "The doctests print three 4x4 matrices; no algebraic property is tested on assembled meshes.",
     [MODEL], [("stiffness", MODEL + ":stiffness")],
     "property-based testing: algebraic invariants (symmetry, spectrum, rigid modes, locality, homogeneity)",
     "Eigenvalues compared with zero at 1e-9 of the largest one.")

prop("P19", "Constraint rows measure the actual gaps",
     "For any mesh and any node displacements, the constraint system gives for each connection the distance to the floor of its lower-labelled node, the gap between the two fiber surfaces and the distance to the ceiling of the other node: bound minus constraint times displacement equals the gap computed from the displaced positions and fiber thicknesses. Fiber ends have no partner: their middle row is never active. The ceiling is initially the top of the highest fiber, only ceiling rows move with it, and forces start at zero.",
     ["inputs"], "all meshes of stacks and all displacement vectors",
     "No test calls the constraint assembly.",
     [MODEL], [("constraint", MODEL + ":constraint")],
     "property-based testing: differential against geometric gaps for generated displacements",
     "Tolerance 1e-9 relative to the stack height.")

prop("P20", "Every computed state is admissible and in mechanical equilibrium",
     "At every state of a solution, and at every interpolated time, no fiber penetrates another, the floor or the ceiling by more than the contact tolerance; elastic forces and contact forces balance at every node; and contact forces are zero wherever there is a gap. The initial state is the undeformed stack without forces. Returned matrices, states and masks have consistent sizes, and interpolated results are indexed by a pseudo-time in [0, 1].",
     ["inputs", "configurations", "histories"], "all stacks, solver parameters and every step of the compaction history",
     "No test calls the solver.",
     [SOLVER, MODEL], [("solve incremental loop", SOLVER + ":solve")],
     "property-based testing: KKT invariants checked at every state of generated compaction histories",
     "Finite tensile moduli and in-plane stacks; infinite moduli checked with rotations removed.")

prop("P21", "Compaction stops at the target, the step limit or jamming, never else",
     "The ceiling goes down from the top of the stack, strictly at each step; the stretch factor is the initial over the current height, and bounds move by exactly the ceiling displacement. The solver takes no more steps than allowed and none once the target packing is reached, and it does not stop earlier unless the packing is jammed, i.e. no open contact is still closing. Stopping at a larger step limit extends the same history, and settings that are left out have their documented defaults.",
     ["inputs", "configurations", "histories"], "all stacks, packing targets, step limits and tolerances",
     "No test calls the solver.",
     [SOLVER], [("solve stopping criteria", SOLVER + ":solve")],
     "property-based testing: history invariants, prefix metamorphic relation and an independent jamming predicate",
     "Early stops are judged by an independent least-squares step; numerically ambiguous ones are counted and not judged.")

prop("P22", "Each step goes exactly to the next contact event",
     "Each step of the solver ends when the first open contact closes: the displacement and force rates are those of the equilibrium with the current contacts held closed while the ceiling goes down at unit speed, and the step length is the smallest closing time of the open contacts. Between two steps no contact opens or closes unnoticed: contacts once closed stay closed and every step closes at least one more. The recorded masks are the active rows of each step.",
     ["inputs", "histories"], "all stacks and every step of the compaction history",
     "No test calls the solver.",
     [SOLVER], [("active set and step length in solve", SOLVER + ":solve")],
     "property-based testing: step-by-step differential against an independent dense least-squares step",
     "Steps whose reference system is numerically ambiguous are counted and skipped.")

prop("P23", "Solutions do not depend on numbering, solver, units or sampling",
     "The physical solution (heights reached, displacements, nodal contact forces) does not depend on the index permutation or linear solver supplied, nor on the number of interpolation points at times where states are stored. Scaling all lengths (tolerance included) scales displacements and forces accordingly, and scaling all moduli scales forces only. Rotating, mirroring or shifting a bounded mat, or renumbering fibers without changing which of two crossing fibers has the lower label, changes nothing else either.",
     ["inputs", "configurations"], "all stacks, permutations, equivalent solvers, unit systems and interpolation sizes",
     "No test calls the solver.",
     [SOLVER, MODEL, INTERP], [("perm, solve and interp_size arguments", SOLVER + ":solve")],
     "property-based testing: metamorphic relations between solutions of related problems",
     "Histories compared up to the first numerically ambiguous event; relative tolerance 1e-6.")

prop("P24", "Floor and ceiling carry the same load, which grows with compaction",
     "At every state the total force on the ceiling equals the total force on the floor, both are compressive, and the contact forces on each fiber sum to zero. The ceiling force never decreases as the ceiling goes down. The elastic energy stored equals the work done by the ceiling over the history.",
     ["inputs", "histories"], "all stacks and compaction histories",
     "No test calls the solver.",
     [SOLVER, MODEL], [("solve", SOLVER + ":solve")],
     "property-based testing: global balance and work-energy invariants over generated histories",
     "Finite tensile moduli; relative tolerance 1e-6.")

prop("P25", "Contacts push, they do not pull",
     "Contact forces are compressive: a newly closed contact starts pushing as compaction goes on, and in assemblies where every contact is loaded by bending a fiber between supports all contact forces are non-negative at every state. No force is ever carried by an open contact, nor between a fiber end and itself. (Documented condition f >= 0 of the contact problem.)",
     ["inputs", "histories"], "all stacks for newly closed contacts; all three-point-bending assemblies for the whole history",
     "No test calls the solver.",
     [SOLVER], [("solve active set", SOLVER + ":solve")],
     "property-based testing: sign invariants on generated histories and on constructed bending assemblies",
     "The solver never releases contacts, so f >= 0 fails in general: recorded as a known finding.")

prop("P26", "Interpolated results pass through the stored states",
     "An interpolated quantity takes exactly the stored values at equally spaced times between 0 and 1, the first at time 0 and the last at time 1, linearly in between by default and constant until the next state for stepwise quantities; constant and infinite values stay what they are. Resampling with a given size gives that many equally spaced times and keeps the end states. The data type and the shape of the states are preserved, and a call without argument returns the sampled states.",
     ["inputs"], "all arrays of states (one or many, scalars, vectors, booleans, integers, infinite values), sizes, kinds and times",
     "No test uses interpolation.",
     [INTERP], [("Interpolate", INTERP + ":Interpolate")],
     "property-based testing: differential against a direct piecewise evaluation",
     "Relative tolerance 1e-9.")

prop("P27", "Exported fibers have the right shape, place and data",
     "The VTK export of a fiber is a cylinder of elliptic section with the fiber's length along its direction, its width horizontally and its thickness across, centred at the fiber position, for every position and direction; parameters that are left out have their documented defaults. The export of a mat is the union of its fibers' shapes, each carrying its label, dimensions, local coordinates, direction and moduli. A user function given for the export is called once per fiber with that fiber's shape and label.",
     ["inputs", "configurations"], "all fibers, directions, resolutions and mats",
     "No test imports the renderer's functions.",
     [RENDER], [("vtk_fiber", RENDER + ":vtk_fiber"), ("vtk_mat", RENDER + ":vtk_mat")],
     "property-based testing: generated fibers against the analytic elliptic cylinder",
     "Tolerance 1e-5 relative (VTK coordinates may be single precision); even angular resolutions (pyvista skews odd ones).")

prop("P28", "Exported deformed meshes show the computed fields",
     "In a bounded VTK export of a mesh with nodal displacements and rotations, each point of a fiber is moved vertically by the cubic Hermite interpolation of the nodal values along that fiber, and the displacement, rotation (its slope) and curvature fields are those of that interpolation. Nodal forces are interpolated between the values at the nodes. Without fields, the export is the undeformed mat, and exported fibers keep their own data and the resolution asked for.",
     ["inputs", "configurations"], "all stacks, nodal fields and fibers",
     "No test imports the renderer's functions.",
     [RENDER], [("vtk_mesh", RENDER + ":vtk_mesh")],
     "property-based testing: generated nodal fields against an independent Hermite evaluation; polynomial exactness",
     "Evaluated at the export's own sampling points; tolerance 1e-5 relative.")

prop("P29", "The periodic export tiles the box with all images",
     "The VTK export of a periodic mesh is the bounded export repeated at the eight neighbouring box translations and cut to twice the box size: each image of each fiber that meets this region is present, at the right translation and with its data, and nothing lies outside.",
     ["inputs"], "all periodic meshes",
     "No test imports the renderer's functions.",
     [RENDER], [("vtk_mesh periodic duplication", RENDER + ":vtk_mesh")],
     "property-based testing: generated periodic meshes against explicit translation of the bounded export",
     "Point sets and total volumes compared; tolerance 1e-5 relative.")

prop("P30", "Settings hold what was set and feed the pipeline",
     "A settings panel returns for each parameter the value given at construction or set later, individually or by a call with keywords, with the in-plane opening converted to radians, optional parameters that are switched off read as none (infinite for moduli), and step counts as integers. Setting one parameter leaves the others unchanged. Unpacked as keyword arguments, a panel gives the same mat, network, stack, mesh and solution as the values it holds.",
     ["inputs", "histories"], "all parameter values and all sequences of settings",
     "No test uses the settings panel.",
     [WIDGETS], [("Settings accessors", WIDGETS + ":Settings")],
     "stateful property-based testing: settings histories against a dictionary model",
     "Values restricted to the documented ranges of the sliders.")

prop("P31", "The whole pipeline accepts every valid mat, down to none",
     "For every valid choice of parameters, generating a mat, building the network, stacking, meshing, assembling, solving and exporting all succeed, whatever the seed, periodicity, threshold and moduli (infinite tensile modulus included), and the objects produced pass their own checks. Empty and default arguments are valid: constructors without arguments give empty objects, and a mat without any fiber gives an empty network, stack and mesh.",
     ["inputs", "configurations"], "all valid parameter sets",
     "The tests build networks and meshes for a few seeds with default parameters; the solver and the export are never run.",
     [MAT, NET, MESH, MODEL, SOLVER, RENDER], [("solve error handling", SOLVER + ":solve")],
     "property-based testing: generated end-to-end runs; any exception or failed self-check is a violation",
     "n >= 1 for assembly, solving and deformed export (an empty mesh has no matrices).")

prop("P32", "System plots report the true residual and show every row",
     "Plotting a system draws on the axes given (or new ones) and returns them, with the stiffness block, the inner, lower and upper contacts that are closed in the state plotted, and the inactive rows, each as its own layer covering exactly the corresponding matrix entries in the given order. It reports the residual of one linear step computed with the supplied solver. The plotted system is left unchanged.",
     ["inputs"], "all systems, states and permutations",
     "No test plots a system.",
     [MODEL], [("plot_system", MODEL + ":plot_system")],
     "property-based testing: generated systems; the drawn layers are compared with the matrix partition",
     "Layers are read back from the matplotlib axes.")

prop("P33", "Notebook buttons reflect what actually happened",
     "Clicking the install button runs exactly one installation of all requested packages with the given option, and shows success with each package's version only if the installation succeeded, and failure otherwise. Clicking the plotting-mode button alternates between the inline and window modes, each click switching the notebook to the mode the button then displays.",
     ["inputs", "histories"], "all package lists, options, installation outcomes and click sequences",
     "No test uses the buttons.",
     [ROOTW], [("PipButton", ROOTW + ":PipButton"), ("MatplotlibButton", ROOTW + ":MatplotlibButton")],
     "stateful property-based testing: click histories with recording stand-ins for the shell and the notebook",
     "The shell commands are never run: stand-ins record them.")

prop("P34", "Exports survive being written to files",
     "An exported fiber, mat, mesh or solved mesh, bounded or periodic, has finite points, carries the documented fields, and can be written to a VTK file and read back with the same points, cells and fields. In what is read back, the fiber labels are whole numbers of existing fibers and select the points of one fiber, with that fiber's tensile modulus.",
     ["inputs", "configurations"], "all stacks, field choices, periodicities and file formats",
     "No test imports the renderer's functions or writes a file.",
     [RENDER], [("vtk_mat", RENDER + ":vtk_mat"), ("vtk_mesh", RENDER + ":vtk_mesh")],
     "property-based testing: export, save, read round trip on generated stacks and fields",
     "Files are written in a scratch folder that each case removes.")

prop("P35", "Fibers that do not interact do not influence each other",
     "Take two groups of fibers too far apart to meet, and compare each group within the whole mat, whatever the labels, with the same group alone. Its connections, stacked heights, thresholded network, mesh, stiffness block and contact gaps are the same, and nothing couples the two groups. Compacted together, each group has at a given ceiling height the displacements and contact forces it has alone at that height, and the packing goes on until the target is reached or one of the groups is jammed.",
     ["inputs", "configurations"], "all pairs of groups, interleavings of labels, periodicities and thresholds",
     "Tests use one mat per call and have no reference; a leak between fibers shows only by comparing two runs.",
     [NET, MESH, MODEL, SOLVER], [("Stack.init", NET + ":Stack.init"), ("stiffness", MODEL + ":stiffness"), ("solve", SOLVER + ":solve")],
     "property-based testing: metamorphic comparison of a mat with its parts",
     "Length bounds that rescale beams globally are left out.")
prop("P36", "A mesh deformed by a solution is the starting point of the next",
     "Adding the vertical displacements of any computed state to the node heights, as documented, gives a mesh that is accepted as such, whose other columns and whose stiffness are unchanged, whose gaps are the remaining gaps of that state, and whose height is the ceiling of that state. Compaction of the deformed mesh starts there, without displacements and forces, and each of its states is admissible and in equilibrium. Results computed before stay as they were.",
     ["inputs", "histories"], "all stacks, times of a solution, and sequences of compactions of the same mesh",
     "Tests stop at the first solution.",
     [MODEL, SOLVER, MESH], [("constraint", MODEL + ":constraint"), ("solve", SOLVER + ":solve"), ("Mesh.check", MESH + ":Mesh.check")],
     "property-based testing: generated sequences of compactions, invariants after each",
     "The contact tolerance is allowed to add up over successive compactions.")

NOT_APPLICABLE = []

NOTE_COMMON = (" Hypothesis search with a fixed seed in deterministic shards; shows the presence of "
               "failures, not their absence beyond the cases explored.")


def write(done=None):
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in P:
            fp.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks, na = [], list(NOT_APPLICABLE)
    for p in P:
        mod = os.path.join(HERE, "props", p["id"].lower() + ".py")
        if os.path.exists(mod):
            checks.append({
                "property": p["id"],
                "quick_cmd": "./run.sh %s quick" % p["id"],
                "thorough_cmd": "./run.sh %s thorough" % p["id"],
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"] + NOTE_COMMON,
            })
        elif p["id"] not in [x["property"] for x in na]:
            na.append({"property": p["id"], "reason": "check under construction"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
                   "not_applicable": na,
                   "notes": "No hooks: the checks drive the public Python API of /repo/src."},
                  fp, indent=1, ensure_ascii=False)
        fp.write("\n")


if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = p["statement"].replace("i.e.", "ie").count(". ") + 1
        assert n <= 3, (p["id"], n)
    write()
    print(len(P), "properties")
