"""id -> (technique, level_note)"""
NOTES = {
"T01": ("definition of the robust crossing test with a global symbolic perturbation, model-checked exhaustively; every recorded point of the real trackers validated against the set of crossed simplices",
        "integer fields on small grids and triangle meshes, degenerate values dominating; GMP and non-GMP builds; positions/times/scalars to 2/4096; the mesh enumeration is that of the M01/M03 specifications"),
"T02": ("recorded batch trajectories validated against the components of the cell adjacency defined in the specification",
        "random and swirling integer fields on small grids and triangle meshes, 2D and 3D, several hundred curves per run, including closed ones and curves through degenerate values"),
"T04": ("state machine of snapshot queue, current timestep and examined slabs, explored exhaustively (with a negative control); every schedule of the model replayed into the real trackers and the recorded runs validated",
        "all 922 push/advance/update/reset schedules with up to 3 snapshots (quick: 400 of them), 7-snapshot model, plus random longer schedules"),
"T05": ("recorded online tracing histories validated step by step against the specification of growing curves", "random fields, 2D/3D/triangle meshes, up to 6 timesteps"),
"T06": ("types recorded for random Jacobians validated against the sign conditions of the interpolated matrix; every type filter; degrees of points validated against the orientation of the triangle in value space, model-checked (with a negative control)", "integer Jacobians; borderline matrices accept each neighbouring type"),
"F01": ("recorded slices, selections and window restrictions validated against set definitions on the recorded trajectories", "random trajectories from random fields; windows with integer and half-integer ends"),
"T03": ("trace specification over pairs of runs: the recorded points and trajectories of every configuration must equal those of the sequential run, which is itself validated against the tracker specification",
        "1-4 processes, pthread/TBB backends, 1-8 threads, partial and whole arrays, degenerate fields on small grids and triangle meshes, plus larger stress fields"),
"P01": ("recorded inputs and outputs of every exchange on real process groups validated against the specification of each collective",
        "1-5 processes, every root, random and empty contributions, all exchange helpers the library defines"),
"P02": ("state machine of a parallel loop (strided workers and joining caller model-checked against it, with a negative control); begin/end/return events of real loops validated against it",
        "0-200 listed tasks, 1-64 threads, pthread and TBB, containers, nested loops and mesh element loops; loops of up to 2^31 tasks by count and sum; at least one thread requested"),
"U01": ("disjoint sets as a sequential specification; concurrent histories recorded under a controlled scheduler validated for linearizability; the parent forest model-checked with a negative control",
        "thousands of schedules (depth-first with 2 preemptions, random, priority-based, free-running) of small programs with up to 4 threads; sequential programs up to 64 elements"),
"M03": ("the extruded mesh defined independently over the base mesh, its conformity model-checked on every small base mesh (with a negative control); complete slabs, faces, cofaces, lookups and iterations recorded from the real meshes validated against it",
        "random triangle and tetrahedral base meshes with scrambled numbering (discs, closed surfaces, a torus, pieces, isolated vertices), slabs 0-6, every element dimension; the partitioned variant needs METIS and is not explored"),
"F02": ("edits of a trajectory as transitions of a specification model-checked for conservation (with a negative control); recorded edit sequences of real trajectories validated step by step",
        "500 random edit sequences over trajectories of 0-9 points with types, closed and open; unwrapping and rotation included; geographic conversion is not"),
"G01": ("components, curves, shortest paths and breadth-first order defined over graphs, the library's algorithms model-checked against them on every small graph (with a negative control); results on real graphs validated",
        "every graph with up to 4 (5) nodes plus random graphs up to 14 nodes, self loops, every overload; linear pieces of two nodes may be flagged either way; contour trees and linear_graph_tracer do not compile"),
"G02": ("labelling and region tracking as state machines model-checked against 4-connectivity and the event definition (with negative controls); labels, links, global labels and events of real runs validated",
        "every small image, mazes and random images up to 13x13; random region histories up to 6 steps; 3D labelling is unfinished in the library (asserts)"),
"D01": ("producer, consumer, slot, mutex and condition variable as a state machine (all interleavings incl. spurious wake-ups; two negative controls) and the smoothing window refined to its definition for every series length; deliveries of real streams under a controlled scheduler validated",
        "all schedules with up to 2 deviations for short series, sampled 3-deviation and random ones; raw and synthetic sources, clamping, spatial and temporal smoothing; kernels up to 9"),
"T07": ("zeros of a pair of functions on space-time triangles by simulation of simplicity, the polygon a cell cuts out and what it means to fill it; model-checked on every small cell (with a negative control); points, surfaces, lines, labels, slices of real runs validated",
        "random, tied, linear and ring-shaped pairs on grids up to 5x5x5, vector and scalar fields for the derived trackers, up to 3 timesteps, 1-4 processes, 1-4 threads, sub-domains, partial arrays, repeated runs; fillings of four- and five-cornered polygons may overlap; CUDA unavailable"),
"E01": ("one command as concurrent processes reading, gathering at the root and writing one file, model-checked (with a negative control: every process writes); sessions of commands over an input series and over each other's files, their files validated against the meaning of each command (PipeTrace over CPTrace)",
        "random, tied and smooth series of 1-4 timesteps, 2D and 3D, scalar and vector, float32/float64/NetCDF/VTK image inputs with or without physical bounds, 1-4 threads, three backends, 1-3 processes, --stream, --type-filter, --compute-degrees, triangle meshes in VTK files, json/binary/text outputs and intercepts as VTK poly data; other VTK outputs, post-processing and --start-timestep not claimed"),
"S01": ("the level set of a space-time cell defined by its crossed edges and covered by simplices; the trackers' case analysis model-checked against it on all sign patterns and shared faces (with a negative control); points, pieces, labels and slices of real runs validated",
        "random, tied and moving-blob scalar fields, thresholds with ties, 2D grids up to 5x5 over 3 steps, 3D up to 3x3x3 over 2, sub-domains, 1-3 processes, 1-4 threads; automatic partition; the slice of the last 3D timestep is empty by design; CUDA unavailable"),
"K01": ("nearest points and containing triangles defined by exact integer geometry; both trees' construction and search model-checked against the definitions (with two negative controls); queries of the real trees validated",
        "point sets up to 50 points in 1-4 dimensions with duplicates, planes and ties; random triangulations with holes and pieces, queries on vertices, edges and outside; dyadic coordinates; no level limit"),
"D02": ("arrays as shapes plus storage order, every operation as a move of indices, model-checked against functions on index tuples and their algebraic laws (with a negative control); recorded operation sequences, file round trips and box-wise stream reads of real arrays validated element by element",
        "900 operation sequences over arrays of 1-5 dimensions in three element types; raw binary, image data, unstructured grids, netCDF (fixed and unlimited), HDF5, Amira, in-memory buffers; streams over 1-3 processes with random boxes; ADIOS and parallel netCDF unavailable"),
"F03": ("storage forms of curve sets (streams of numbers, tables of points and cells) as encoders and decoders, model-checked for round trips over every small set (with a negative control); recorded histories of two trackers and their files validated against the contents each form keeps",
        "560 histories of writes, reads, edits and exports (JSON, binary, buffers, VTK poly data and grids, text) over points, curves and slices with extreme numbers, closed, empty and equally numbered curves; archived points traced again; surfaces and volumes; 1-2 processes; finite numbers; arrays are D02's"),
"D03": ("derivations of fields defined over integers (exact multiples) and model-checked for their laws - exact for quadratics, no curl of gradients, no mass moved - on every small polynomial, image and triangulation (with a negative control); recorded derivations of the real code validated value by value",
        "random integer fields in two element types on grids up to 7^2x3 / 6^3x2, blocks of larger arrays, kernels up to 5, paddings, vector and matrix fields; unimodular triangle meshes and simplices; weights of built kernels only by order (the exponential is real-valued)"),
}
