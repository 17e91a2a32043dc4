#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),
      why_tests_cant=why,anchors=dict(files=list(files),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
I="include/ftk/"
prop("M01","The spacetime grid mesh is a conforming simplicial subdivision",
 "For every dimension and box size, the regular grid mesh triangulates space-time conformingly: each simplex is listed exactly once, its faces and the simplices it is a face of agree with each other, each facet inside the domain bounds exactly two top simplices and each facet on the border exactly one. Every simplex of a time slab is classified either as lying in one timestep or as spanning two consecutive timesteps, and the two classes together enumerate every simplex exactly once, for any sub-box that is iterated.",
 ["inputs","configurations"],"every mesh dimension (2..4), lower/upper bounds, sub-box, simplex dimension and scope (all / in-timestep / between-timesteps)",
 "The tests only count unit simplices of one mesh and print them; they never relate faces to cofaces or enumerate a mesh and compare with an independent definition.",
 [I+"mesh/simplicial_regular_mesh.hh",I+"mesh/lattice.hh",I+"object.hh"],
 [("unit simplex tables, sides/side_of tables",I+"mesh/simplicial_regular_mesh.hh: initialize, derive_unit_simplex_sides, derive_unit_simplex_side_of"),("element_for / element_for_ordinal / element_for_interval",I+"mesh/simplicial_regular_mesh.hh")],
 [("element","corner, dimension and type of a simplex",I+"mesh/simplicial_regular_mesh.hh: simplicial_regular_mesh_element")],
 ["simplex vertices, sides, side_of, is_ordinal as returned by the mesh API"])
prop("M02","Element identifiers are a bijection and round-trip",
 "Within a mesh every simplex has an integer identifier of its own, and converting the identifier back gives the same simplex; the same holds for the compact per-box work indices and for the identifiers of grid points of a lattice. Identifiers do not depend on which sub-box or which process computed them.",
 ["inputs","configurations"],"every mesh/lattice shape (including non-zero and negative lower bounds), sub-box, dimension and element",
 "No test round-trips identifiers; trajectories silently merge or split when two elements share a tag.",
 [I+"mesh/simplicial_regular_mesh.hh",I+"mesh/lattice.hh"],
 [("to_integer/from_integer, to_work_index/from_work_index",I+"mesh/simplicial_regular_mesh.hh"),("lattice to_integer/from_integer",I+"mesh/lattice.hh")],
 (),["identifiers returned by the API and the simplices they decode to"])
prop("M03","Time-extruded triangle and tetrahedral meshes are conforming at every time slab",
 "For every triangle or tetrahedral mesh and every time slab, extruding the mesh in time gives a conforming mesh one dimension higher: each prism is split into exactly three tetrahedra (four pentachora), neighbouring prisms split their common wall the same way, faces and cofaces agree, and identifiers, vertex tuples and lookups by vertices are mutually inverse. The faces, cofaces, lookups and neighbours of the base mesh follow from its list of cells alone, and a mesh that is written and read back is the same mesh. Elements lying in one timestep are exactly the copies of the base mesh's elements, and iterating a slab visits each of its elements once.",
 ["inputs","configurations"],"every triangle mesh (vertex order and triangle order arbitrary), time slab, element dimension and type",
 "One test walks one disc mesh and checks a few lookups; other triangulations, later slabs and walls at the border are not reached.",
 [I+"mesh/simplicial_unstructured_2d_mesh.hh",I+"mesh/simplicial_unstructured_extruded_2d_mesh.hh",I+"mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh"],
 [("get_simplex / sides / side_of / find_simplex","extruded 2d mesh"),("build_edges / build_triangles","2d mesh")],
 (),["vertex tuples, sides, side_of, find_simplex, element_for_* of the mesh API"])
prop("M04","Domain decomposition tiles the domain exactly",
 "Partitioning a lattice among n processes, automatically or with prescribed divisions, yields exactly one core block per process whenever the prescribed divisions fit the lattice and the process count; the cores are disjoint and together cover the whole domain. Each extended block contains its core, stays inside the domain, and reaches exactly the requested number of ghost layers wherever the domain allows.",
 ["inputs","configurations"],"every lattice size and lower bound, process count, prescribed division vector and ghost width",
 "Tests run the trackers with 1..4 ranks on one square grid; uneven sizes, prescribed divisions and one-sided ghosts are never decomposed.",
 [I+"mesh/lattice_partitioner.hh",I+"mesh/lattice.hh"],
 [("partition / partition_new / add_ghost",I+"mesh/lattice_partitioner.hh")],
 [("cores, extents","block of each process",I+"mesh/lattice_partitioner.hh")],["get_core, get_ext, np of the partitioner"])
prop("T01","Extracted feature points are exactly the simplices the zero set crosses",
 "For every piecewise linear space-time vector field, the 2D, 3D and triangle-mesh trackers report a point for a simplex if and only if the field vanishes inside it, with ties at vertices and edges resolved by one global symbolic perturbation. Each point carries the interpolated position and time of the zero, the identifier of its simplex, the timestep it was found in and whether it lies in a timestep or between two, and with a scalar field the interpolated scalar value.",
 ["inputs"],"every vector field (including degenerate ones: exact zeros at vertices, zeros on edges, constant fields), grid size, timestep and physical-coordinate mode",
 "Tests count trajectories of analytic fields in general position; a wrong decision in one degenerate case or an interpolation error of half a cell changes no count.",
 [I+"filters/critical_point_tracker_2d_regular.hh",I+"filters/critical_point_tracker_3d_regular.hh",I+"filters/critical_point_tracker_2d_unstructured.hh",I+"numeric/sign_det.hh",I+"numeric/critical_point_test.hh",I+"numeric/inverse_linear_interpolation_solver.hh",I+"numeric/linear_interpolation.hh"],
 [("check_simplex","critical point trackers"),("robust_critical_point_in_simplex2/3, positive2/3",I+"numeric/sign_det.hh")],
 [("discrete critical points","simplex -> feature point","critical point trackers")],["get_critical_points()"])
prop("T02","Trajectories partition the points into the connected curves of the zero set",
 "With batch tracing, every extracted point belongs to exactly one trajectory, and two points belong to the same trajectory if and only if they are linked through a chain of space-time cells that share points. Consecutive points of a trajectory lie in a common cell, a trajectory is marked closed exactly when its ends are adjacent as well, no trajectory ends in the interior of space-time, and trajectory numbers are unique and repeated on all their points.",
 ["inputs","histories"],"every vector field and grid, 2D, 3D and triangle mesh",
 "Tests compare the number of trajectories for a handful of smooth fields; random fields with hundreds of short, closed or touching trajectories are not tried.",
 [I+"filters/critical_point_tracker.hh",I+"filters/critical_point_tracker_2d_regular.hh",I+"filters/critical_point_tracker_3d_regular.hh",I+"filters/critical_point_tracker_2d_unstructured.hh",I+"geometry/cc2curves.hh",I+"basic/duf.hh",I+"features/feature_curve_set.hh"],
 [("trace_critical_points_offline",I+"filters/critical_point_tracker.hh"),("connected_component_to_linear_components, is_loop",I+"geometry/cc2curves.hh")],
 [("traced critical points","set of curves",I+"filters/critical_point_tracker.hh")],["get_traced_critical_points()"])
prop("T03","Results do not depend on threads, backends or processes",
 "For the same input, the extracted points and the trajectories (as sets of points in curve order, up to direction and numbering) are the same for every number of threads, every thread scheduling, every parallel backend, every number of processes and either choice of feeding each process the whole array or only its block.",
 ["schedules","configurations"],"every thread count and interleaving, backend, process count, root process and partial/full input",
 "Tests run 1..4 processes on two smooth fields and compare only the number of trajectories; thread interleavings are whatever the machine happens to do.",
 [I+"filters/regular_tracker.hh",I+"filters/critical_point_tracker.hh",I+"filters/contour_tracker_regular.hh",I+"object.hh",I+"utils/gather.hh",I+"utils/redistribution.hh",I+"basic/duf.hh"],
 [("initialize (domain partition, ghost)",I+"filters/regular_tracker.hh"),("gather / redistribute / distributed union-find",I+"filters/critical_point_tracker.hh")],
 (),["get_critical_points / get_traced_critical_points on the root process"])
prop("T04","Every timestep is processed exactly once with the right pair of snapshots",
 "Whatever the order in which snapshots are pushed and timesteps advanced, each timestep's in-plane elements are examined once using that timestep's snapshot, and, if the next snapshot is available when the timestep is advanced, the elements of the following interval once using exactly the two snapshots that bound it; advancing consumes the oldest snapshot and reports whether another is available. Points already found are never changed or lost by later steps, a run may start at any first timestep, and after a reset a tracker behaves like a fresh one.",
 ["histories"],"every sequence of push, advance, update, finalize and reset calls, any first timestep",
 "Tests feed snapshots in one fixed pattern through one driver; histories with several buffered snapshots, resets or a non-zero start are never run.",
 [I+"filters/critical_point_tracker.hh",I+"filters/critical_point_tracker_2d_regular.hh",I+"filters/critical_point_tracker_3d_regular.hh",I+"filters/contour_tracker.hh",I+"filters/tracker.hh",I+"filters/json_interface.hh"],
 [("push_field_data_snapshot / pop / advance_timestep",I+"filters/critical_point_tracker.hh"),("update_timestep","trackers")],
 [("snapshot queue","fields waiting to be processed",I+"filters/critical_point_tracker.hh"),("current timestep","",I+"filters/tracker.hh")],["return values and get_critical_points after every call"])
prop("T05","Online tracing grows the same trajectories as it goes",
 "With online (streaming) tracing, at every moment the trajectories are made of points already extracted, no point occurs in two trajectories, consecutive points of a trajectory lie in a common cell, and existing trajectories are only extended at their ends, never cut or reordered; the extension of a trajectory that is still growing is not started as a new one. Points not yet absorbed stay available for later steps.",
 ["inputs","histories"],"every vector field and every number of timesteps",
 "No test inspects online trajectories step by step.",
 [I+"filters/critical_point_tracker.hh",I+"algorithms/cca.hh"],
 [("trace_critical_points_online / grow",I+"filters/critical_point_tracker.hh")],
 (),["get_traced_critical_points after every advance"])
prop("T06","Critical point types follow the Jacobian, and type filters select exactly",
 "The type reported for a point is the one the local Jacobian or Hessian demands: minimum, maximum or saddle for symmetric matrices, and source, sink, saddle, focus or centre for general ones (general 3D matrices are reported as unknown). With a type filter, exactly the points of the selected types are kept, and nothing else about them changes. When degrees are asked for, every point in a 2D timestep carries the index of its zero (+1 or -1, the winding number of the field along the triangle around it), a point between timesteps carries none, and positions, scalars and trajectories stay the same.",
 ["inputs","configurations"],"every Jacobian field and every set of selected types",
 "Tests never look at the reported type and never set a filter.",
 [I+"numeric/critical_point_type.hh",I+"filters/critical_point_tracker.hh",I+"filters/critical_point_tracker_2d_regular.hh",I+"filters/critical_point_tracker_3d_regular.hh",I+"numeric/eigen_solver2.hh",I+"numeric/eigen_solver3.hh"],
 [("critical_point_type_2d/3d",I+"numeric/critical_point_type.hh"),("filter_critical_point_type",I+"filters/critical_point_tracker.hh")],
 (),["type of the points returned by get_critical_points"])
prop("T07","Vortex lines and ridges are found completely and sweep connected surfaces",
 "For every pair of scalar functions on a 3D time-varying grid - given directly, or derived from a vector field by the Sujudi-Haimes or Levy-Degani-Seginer criterion, or from a scalar field as ridge or valley - the line tracker reports a point on a space-time triangle if and only if both functions vanish in it (ties broken consistently), at that zero's position and time. In every cell the surface swept by the lines fills exactly the polygon spanned by the cell's points, so surfaces close up across cells, each connected surface has one label, and the lines of a timestep are exactly the chains of points of neighbouring triangles, with closed lines marked as loops. Threads, processes, partial arrays and earlier runs do not change the result.",
 ["inputs","configurations","histories"],"every pair of functions (including exact zeros and ties), vector or scalar field, grid size, sub-domain, number of timesteps, threads, processes",
 "No test runs a line tracker.",
 [I+"filters/critical_line_tracker.hh",I+"filters/critical_line_tracker_3d_regular.hh",I+"filters/sujudi_haimes_tracker_3d_regular.hh",I+"filters/levy_degani_seginer_tracker_3d_regular.hh",I+"filters/ridge_valley_tracker_3d_regular.hh",I+"features/feature_surface.hh"],
 [("check_simplex, update_timestep, finalize/build surfaces",I+"filters/critical_line_tracker_3d_regular.hh")],
 [("intersections","",I+"filters/critical_line_tracker_3d_regular.hh")],["get_intersections / get_surfaces / get_traced_curves"])
prop("F01","Per-timestep slices agree with the trajectories",
 "Slicing trajectories by timestep yields, for each timestep, exactly the trajectory points that lie in that timestep, each labelled with its trajectory's number; selecting trajectories keeps exactly those satisfying the predicate; and restricting trajectories to a time window keeps exactly the points inside the window, in curve order, with consistent statistics.",
 ["inputs"],"every set of trajectories, predicate and time window",
 "No test slices, selects or intercepts trajectories.",
 [I+"filters/critical_point_tracker.hh",I+"features/feature_curve.hh",I+"features/feature_curve_set.hh"],
 [("slice_traced_critical_points, select_trajectories",I+"filters/critical_point_tracker.hh"),("intercept",I+"features/feature_curve_set.hh")],
 (),["sliced points per timestep, filtered and intercepted curve sets"])
prop("F02","Editing trajectories conserves their points",
 "Splitting a trajectory by type, rotating or reversing it and merging the result conserve its points and their order along the curve: splitting gives maximal runs of one type whose concatenation is the original, rotation and reversal only change where a curve starts and its direction, discarding removes exactly the addressed points, and smoothing types changes only types of runs shorter than the window. Cached statistics (time range, maxima, minima, type consistency) match the points after every edit.",
 ["inputs","histories"],"every trajectory (any length including empty, open or closed, any types) and every sequence of edits",
 "No test edits a trajectory.",
 [I+"features/feature_curve.hh",I+"features/feature_curve_set.hh",I+"filters/feature_curve_set_post_processor.hh"],
 [("split / rotate / reorder / discard_* / smooth_* / update_statistics",I+"features/feature_curve.hh"),("split_all / filter",I+"features/feature_curve_set.hh")],
 [("curve points and statistics","",I+"features/feature_curve.hh")],["points and statistics of the curves after each operation"])
prop("D03","Derived fields are the stated differences, products and convolutions",
 "Gradients, Jacobians, vorticity, products and convolutions derived from a field hold at every grid point exactly the central difference, product or weighted sum their definition names, with the documented scale and border, and nothing else: every component at its own place, every timestep by itself, every component of a vector field smoothed by itself. On triangle meshes the gradient at a vertex is the mean of the gradients of the linear functions around it, a smoothing kernel holds exactly the vertices within its radius, and smoothed values, gradients and Hessians are those of the weighted sum.",
 ["inputs"],"every field, grid size, border, block of a larger array, kernel, padding; every triangle mesh",
 "Two tests convolve one small array; gradients are only used underneath trackers on smooth synthetic data.",
 [I+"ndarray/grad.hh",I+"ndarray/conv.hh",I+"numeric/gradient.hh",I+"mesh/simplicial_unstructured_2d_mesh.hh"],
 [("gradient2D .. jacobian3Dt, vorticity3D, cross_product3D, Jv_dot_v",I+"ndarray/grad.hh"),("conv2D, conv3D, conv_gaussian",I+"ndarray/conv.hh"),("scalar_gradient, vector_gradient, smooth_scalar_gradient_jacobian, build_smoothing_kernel",I+"mesh/simplicial_unstructured_2d_mesh.hh")],
 (),["the arrays returned by the derivations"])
prop("F03","Results survive being written and read back",
 "Points, trajectories, trajectory sets and arrays read back from any of the supported storage forms (binary, JSON, VTK poly data, in-memory buffers) equal what was written: the same curves under the same numbers, the same points in the same order with all their attributes, the same closedness. Writing what was read gives the same contents again.",
 ["inputs"],"every set of points/trajectories (empty, several curves, closed curves, split curves sharing a number) and every array shape",
 "The tests write one result and check only how many trajectories come back.",
 [I+"features/feature_point.hh",I+"features/feature_curve.hh",I+"features/feature_curve_set.hh",I+"utils/serialization.hh",I+"filters/critical_point_tracker.hh",I+"ndarray.hh"],
 [("to_json/from_json, diy::Serialization, to_vtp/from_vtp",I+"features/feature_curve_set.hh"),("serializeToFile/unserializeFromFile",I+"external/diy-ext/serialization.hh")],
 (),["objects compared after a write/read cycle"])
prop("S01","Level-set tracking finds every crossing and builds watertight surfaces",
 "For every scalar field and threshold, the 2D and 3D level-set trackers report a point on a space-time edge if and only if the field crosses the threshold on it, at the interpolated position and time. The pieces they assemble cover, in every cell, the level set inside that cell exactly once: neighbouring pieces share faces and the surface or volume has no hole in the interior of space-time.",
 ["inputs","configurations"],"every scalar field (including values equal to the threshold), threshold, grid size and number of timesteps, threads and processes",
 "No test runs level-set tracking.",
 [I+"filters/contour_tracker.hh",I+"filters/contour_tracker_regular.hh",I+"filters/contour_tracker_2d_regular.hh",I+"filters/contour_tracker_3d_regular.hh",I+"features/feature_surface.hh",I+"features/feature_volume.hh"],
 [("check_simplex, update_timestep, build_surfaces/build_isovolume","contour trackers")],
 [("intersections, related cells","",I+"filters/contour_tracker_regular.hh")],["get_intersections(), get_surfaces() / isovolume connectivity"])
prop("U01","Disjoint sets equal the closure of the requested unions",
 "After any sequence of unions, two elements are reported in the same set if and only if they are connected by the requested unions, every element has exactly one representative which is its own representative, and reported set sizes and members agree. This holds for the sequential, the hash-map based and the thread-safe variants, the latter under every interleaving of concurrent finds and unions, and a find never creates or loses a link.",
 ["histories","schedules"],"every sequence of add/find/unite calls and every interleaving of up to several threads",
 "The only test unites a few integers from one thread.",
 [I+"basic/union_find.hh",I+"basic/simple_union_find.hh",I+"basic/duf.hh"],
 [("find with path halving, unite by size/order",I+"basic/union_find.hh"),("locking of the shared map",I+"basic/duf.hh")],
 [("parents map","",I+"basic/duf.hh")],["find / same_set / get_roots after the calls"])
prop("G01","Connected components and their linear pieces are exact",
 "For every finite graph, the components extracted are exactly the equivalence classes of reachability: every node is in exactly one component and adjacent nodes are in the same one. Decomposing a component into curves uses every ordinary node exactly once, keeps neighbours along a curve adjacent, breaks only at branching nodes and calls a curve closed exactly when its first and last nodes are adjacent; shortest-path and breadth-first traversals visit exactly the reachable nodes with minimal distances.",
 ["inputs"],"every finite undirected graph and every node subset",
 "The graphs arising in the tests are a handful of simple paths.",
 [I+"algorithms/cca.hh",I+"algorithms/bfs.hh",I+"algorithms/dijkstra.hh",I+"geometry/cc2curves.hh"],
 [("extract_connected_components",I+"algorithms/cca.hh"),("connected_component_to_linear_components",I+"geometry/cc2curves.hh")],
 (),["returned components and curves"])
prop("G02","Region tracking links exactly the overlapping regions and reports each event",
 "Labelling a binary image gives two foreground cells the same label if and only if they are 4-connected, uses the labels 1..k and returns k. Tracking labelled regions over time links a region of one step to a region of the next if and only if they overlap, gives linked one-to-one continuations the same global label, and reports each birth, death, merge, split or compound change exactly once with the regions it involves.",
 ["inputs","histories"],"every image, every sequence of labelled images, every bipartite overlap pattern between consecutive steps",
 "One test labels one picture; tracking graphs and events are not tested at all.",
 [I+"algorithms/hoshen_kopelman.hh",I+"filters/connected_component_tracker.hh",I+"filters/threshold_tracker.hh",I+"tracking_graph/tracking_graph.hh",I+"tracking_graph/event.hh"],
 [("hoshen_kopelman_2d",I+"algorithms/hoshen_kopelman.hh"),("advance_timestep",I+"filters/connected_component_tracker.hh"),("relabel, detect_events",I+"tracking_graph/tracking_graph.hh")],
 [("nodes, edges, labels","",I+"tracking_graph/tracking_graph.hh")],["labels, global labels and events"])
prop("P01","Process-group exchanges conserve data",
 "Gathering puts on the root exactly the union (concatenation, for lists) of what the processes held, an all-gather gives every process that union, a broadcast gives every process the root's value, scattering hands each process its own part, and redistribution moves every item to the process it is addressed to, exactly once. This holds for every number of processes, every root and any distribution of data including processes that hold nothing.",
 ["inputs","configurations"],"every process count and root, every distribution of items (including empty)",
 "Tests use these only underneath trackers with up to 4 ranks and one dominant payload.",
 [I+"utils/gather.hh",I+"utils/bcast.hh",I+"utils/scatter.hh",I+"utils/redistribution.hh",I+"utils/all2all.hh",I+"utils/serialization.hh"],
 [("gather, allgather, bcastv, scatterv, redistribute, all2all",I+"utils/*.hh")],
 (),["contents on every process after the call"])
prop("P02","Parallel loops run every task exactly once",
 "A parallel loop over n tasks or over a container runs the body exactly once for each task, for every number of tasks, threads and either thread backend, and returns only after all of them finished.",
 ["schedules","configurations"],"every task count (including 0 and fewer tasks than threads), thread count, backend and interleaving",
 "No test addresses the loop itself; trackers overwrite map entries, hiding duplicated or reordered work.",
 [I+"object.hh",I+"mesh/simplicial_regular_mesh.hh"],
 [("parallel_for, parallel_for_container",I+"object.hh")],(),["set of executed task indices"])
prop("D01","A data stream delivers every timestep once and in order",
 "A started stream calls its consumer exactly once per timestep, in increasing order, each time with that timestep's array, whether reading happens in the caller or asynchronously, and whatever the relative speed of reader and consumer. Temporal smoothing yields exactly one output per input, in order, each the kernel-weighted combination of its neighbours with the ends replicated, and clamping bounds every delivered value.",
 ["schedules","histories","inputs"],"every number of timesteps, kernel size, reader/consumer interleaving",
 "Stream tests use synchronous reading of long streams only.",
 [I+"ndarray/stream.hh",I+"filters/streaming_filter.hh",I+"ndarray/conv.hh"],
 [("start (synchronous and asynchronous loops)",I+"ndarray/stream.hh"),("push/get/finish",I+"filters/streaming_filter.hh")],
 [("kernel window","buffered timesteps",I+"filters/streaming_filter.hh")],["sequence of callback invocations"])
prop("D02","Arrays keep every element at its place through reshaping and file formats",
 "Slicing, sub-array extraction, transposing, stacking and concatenating multi-dimensional arrays move each element to the index the operation defines and change nothing else; reading a field in any supported file format, whole or block by block on several processes, yields the same array as the one written, with component and time markers consistent. Minimum/maximum and derived statistics equal those of the elements.",
 ["inputs","configurations"],"every array shape (1..4 dimensions, with or without components), every sub-box, every file format, every partition of the domain among processes",
 "Tests read back one or two files and count trajectories; block reads and array operations are not compared element by element.",
 [I+"ndarray.hh",I+"ndarray/ndarray_base.hh",I+"ndarray/stream.hh",I+"mesh/lattice.hh"],
 [("slice, slice_time, subarray, get_transpose, stack, concat",I+"ndarray.hh"),("request_timestep_file_*",I+"ndarray/stream.hh")],
 (),["element values and shapes after each operation"])
prop("K01","Point queries return the true nearest point or containing triangle",
 "A nearest-neighbour query returns a stored point at minimal distance from the query, for every point set and query including ties and duplicates. Locating a point in a triangle mesh returns a triangle that contains it, with barycentric coordinates that reproduce the point, and reports none exactly when the point is outside the mesh.",
 ["inputs"],"every finite point set / triangulation and query point",
 "Two tests query one random point set each; ties, duplicates and points on shared edges are not tried.",
 [I+"basic/kd.hh",I+"mesh/point_locator_2d.hh",I+"mesh/point_locator_2d_quad.hh"],
 [("find_nearest",I+"basic/kd.hh"),("locate",I+"mesh/point_locator_2d_quad.hh")],(),["query results"])
prop("E01","The command-line tool does exactly what it is asked, whatever it runs on",
 "For every input series, the critical-point command of the tool writes exactly the discrete points, the trajectories, the per-timestep slices or the intercepted parts of trajectories of that series to the file named, in the format named. The input format, physical bounds given by the file or on the command line, the number of threads, blocks and processes, the thread backend and asynchronous reading leave no other trace in the results; filtering by type, computing degrees and streaming act only as named. Continuing from archived points or archived trajectories gives the same trajectories and slices as continuing from the data.",
 ["inputs","configurations","histories"],"every series of scalar or vector timesteps on a 2D or 3D grid or a triangle mesh, every sequence of commands over each other's files, every combination of options, threads and processes",
 "The command-line tests count trajectories of a few synthetic inputs; none reads results back or compares runs.",
 ["src/cli/ftk.cpp",I+"filters/json_interface.hh",I+"ndarray/stream.hh",I+"filters/critical_point_tracker.hh"],
 [("consume_regular, write",I+"filters/json_interface.hh"),("execute_critical_point_tracker","src/cli/ftk.cpp"),("write_/read_critical_points_*, write_/read_traced_critical_points_*",I+"filters/critical_point_tracker.hh")],
 [("result files","",I+"filters/json_interface.hh")],["contents of the result files"])
prop("N01","Closed-form solvers are accurate to rounding error",
 "The quadratic, cubic and quartic root finders, the small linear and eigenvalue solvers and the inverse interpolation solvers return all real solutions within a rounding-error bound of the exact ones.",
 ["inputs"],"all floating-point coefficient vectors",
 "Tests sample random well-conditioned coefficients.",
 [I+"numeric/quadratic_solver.hh",I+"numeric/cubic_solver.hh",I+"numeric/eigen_solver3.hh"],
 [("solve_*",I+"numeric/*.hh")],(),["returned roots"])
prop("N02","No input makes the library read or write outside its buffers",
 "For every input accepted by the public interface, the library performs no out-of-bounds access, use after free or uninitialised read.",
 ["inputs","histories"],"every input and call history",
 "Tests run without memory checking.",
 [I+"ndarray.hh",I+"algorithms/hoshen_kopelman.hh"],
 [("unchecked indexing",I+"ndarray.hh")],(),["process memory"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
