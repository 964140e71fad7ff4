"""Build and coverage description of every property's check."""
CHECKS = {
 "C01": dict(src=["C01_min_max_heap.cpp"],
   rule="random and sawtooth push/popTop/popBottom sequences over several comparators, containers and value types with many ties (heap sizes up to thousands), plus every key sequence over a small alphabet with every drain pattern; non-trivial: the heap held at least 3 items"),
}
CHECKS["C02"] = dict(src=["C02_interval_indices.cpp"],
   rule="random boxes in 1 to 5 dimensions (odd and even sides, far offsets, zero and negative sides) built through every initialiser; cell sets enumerated by the oracle; intersections biased to touching, nested and disjoint pairs; non-trivial: the interval has more than one cell")
CHECKS["C03"] = dict(src=["C03_grid.cpp"],
   rule="grids of 1 to 4 dimensions built through every initialiser (also re-initialised), histories of writes through all accessors against a per-cell model, full bijection sweep, out-of-range positions; non-trivial: more than one cell and a history of writes")
CHECKS["C04"] = dict(src=["C04_peak_finder.cpp"],
   rule="landscapes (plateaus, permutations, bumps, ramps, spikes, checkerboards) on 1-D to 4-D domains with per-axis windows from 0 to larger than the domain, filter on and off, maxima and minima; non-trivial: at least one but not all cells are peaks")
CHECKS["C05"] = dict(src=["C05_disjoint_set.cpp"], libs=["common"],
   rule="histories of makeSet, join, find, size, initSets and invalid ids (random pairs, chains, stars, hypercubes, clusters; up to 12000 nodes) against explicit member lists; non-trivial: at least one join took effect among 3 or more nodes")
CHECKS["C06"] = dict(src=["C06_label_set.cpp"], libs=["common"],
   rule="histories over four label sets (dense and sparse label ranges, extreme ints) mixing every mutator, set operation and comparison, with near-equal pairs (prefix, one label more or less); every history is non-trivial (10 or more operations)")
CHECKS["C07"] = dict(src=["C07_integer_bits.cpp"], libs=["common"],
   rule="every 8 and 16 bit value; structured (runs of ones, powers of two and neighbours, negations) and random 32/64 bit patterns, all powers of two +-2 with both signs; thorough adds every 32 bit value; a non-trivial case is a distinct batch of values")
CHECKS["C08"] = dict(src=["C08_float_fields.cpp"], libs=["common"],
   rule="every sign/exponent field of float and double with structured and random mantissas, random bit patterns, subnormals, zeros, infinities (NaN excluded); thorough adds every float bit pattern; a non-trivial case is a distinct batch of bit patterns")
CHECKS["C09"] = dict(src=["C09_morton_order.cpp"], libs=["common"],
   rule="clusters of points (extreme values, powers of two and neighbours, one-bit and one-ulp perturbations, mixed signs, signed zeros) in 1 to 4 dimensions over six integer types, float and double; all pairs against the reference and all triples against the order laws; every cluster is non-trivial")
CHECKS["C10"] = dict(src=["C10_morton_blocks.cpp"], libs=["common"],
   rule="all pairs of 8 bit values; pairs over six wider integer types, float and double (equal, one bit or ulp apart, opposite signs, extremes, far exponents) assembled in 2-D and 3-D boxes; sampled points of each box against the split point; non-trivial: the two points differ")
CHECKS["C11"] = dict(src=["C11_morton_tree.cpp:0", "C11_morton_tree.cpp:1", "C11_morton_tree.cpp:2"], libs=["common"],
   rule="histories of single, range and converting inserts (ids kept or reset), sorts, point queries, range levels and box/ball queries over int, long, float and double in 2-D and 3-D, including clustered, duplicate and sign-crossing points; every query compared with a full scan; non-trivial: more than two items")
CHECKS["C12"] = dict(src=["C12_tls_consensus.cpp"], libs=["common"],
   rule="value sets of 1 to 200 samples with a consensus cluster and outliers, uniform spreads, separated groups and single samples, equal and mixed ranges, float and double (no two interval endpoints within rounding of each other); the oracle enumerates the consensus set at every endpoint; non-trivial: two or more values")
CHECKS["C13"] = dict(src=["C13_param_map.cpp"], libs=["common"],
   rule="histories of sets, text and command-line reads (comments, blanks, CRLF, long lines, repeated names), file round trips, typed and container reads with defaults, tilde expansion and copies over one map, observed through write() after every step; non-trivial: distinct history and final content")
CHECKS["C14"] = dict(src=["C14_io.cpp"], libs=["common"],
   rule="directories built in a scratch folder (regular, empty, hidden, oddly named files, subdirectories, fifos, links to files, directories and nothing; trailing slash; caller lists not empty) and stamps under time zones shifting local time by up to 23 hours; non-trivial: at least one regular file, or a distinct zone and prefix/postfix")
CHECKS["C15"] = dict(src=["C15_profiler.cpp"], libs=["common"],
   rule="series of measures (uniform, constant, large mean with small spread, many magnitudes, negative) over several labels, statistics read back through the printed table after every update; scoped timers, nested and through the macro, against the clock; non-trivial: more than two measures")
CHECKS["C16"] = dict(src=["C16_fast_trig.cpp"], libs=["common"],
   rule="angles at and one ulp around multiples of pi/4, tiny, negative and large; points in every quadrant, on the axes and diagonals over 12 decades, signed zeros; series up to order 60; a non-trivial case is a distinct batch of arguments")
CHECKS["C17"] = dict(src=["C17_interval_bounds.cpp"], libs=["common"],
   rule="intervals with ends at, near and between multiples of pi/2, of zero width up to several turns, swapped ends (widths within 1e-8 of a turn excluded); series up to order 8 incl. single harmonics, 200 samples each plus the exact range of every harmonic; non-trivial: interval of positive width or distinct series")
CHECKS["C18"] = dict(src=["C18_pnebi.cpp"], libs=["common"],
   rule="orders 0 to 60 and arguments 0 to 1e5 of both signs concentrated at the thresholds of the approximation; tables of order 0 to 25 and tolerance 0.003 to 0.2, re-initialised, with arguments up to 1e4; non-trivial: distinct order and argument")
HEAVY = ["box_registration.cpp", "correspondence_graph_association.cpp", "hough_line_detector.cpp", "hough_plane_detector.cpp"]
CHECKS["C19"] = dict(src=["C19_geometry2.cpp"], libs=["geometry"], skip=HEAVY,
   rule="poses, angles at and around multiples of pi/4 and up to 100 rad, wrapping intervals, points near their ends (within 1e-4 of an end excluded, exact ends included), left, right and collinear point triples; a non-trivial case is a distinct argument tuple")
CHECKS["C20"] = dict(src=["C20_gis.cpp"], libs=["geometry"], skip=HEAVY,
   rule="coordinates over the whole globe (poles and date line included for the Earth-centred conversion, up to 85 degrees of latitude for the local one), displacements up to 20 km; a non-trivial case is a distinct coordinate tuple")
CHECKS["C26"] = dict(src=["C26_vector_array.cpp"],
   rule="arrays of 1 to 7 components over five value types with zeros, ties and negative values, every operator, also with the object itself or one of its components as operand; a non-trivial case is a distinct pair of arrays and scalar")
CHECKS["C21"] = dict(src=["C21_box_registration.cpp:%d" % k for k in range(5)], san="asan0",
   rule="boxes (also flat and cubic ones) in 2-D and 3-D, float and double; queries inside, outside, on faces, edges, corners and the centre; clouds of 1 to 60 points from the whole surface, one face or one edge with and without noise, registration from the initial estimate or a displaced truth; non-trivial: distinct box and cloud")
CHECKS["C22"] = dict(src=["C22_correspondence_graph.cpp"], libs=["common", "geometry"],
   skip=["box_registration.cpp", "hough_line_detector.cpp", "hough_plane_detector.cpp"],
   rule="point sets of 1 to 5 (thorough 6) items, generic, on a small lattice (many ties) and on a line, destination as a moved subset with outliers, several tolerances and minimum distances, objects reused with new and with the same data; differences within 1e-4 of the tolerance excluded; non-trivial: at least one compatible pair")
CHECKS["C23"] = dict(src=["C23_hough_planes.cpp"], libs=["common", "geometry"],
   skip=["box_registration.cpp", "hough_line_detector.cpp", "correspondence_graph_association.cpp", "gis.cpp", "base_geometry2.cpp"],
   rule="histories of vector and range insertions, resets, re-initialisations and window changes on parameter spaces of 1 to 24 cells per side with default and given ranges; points on planes of the space, on lattices, around the first and last distance, repeated and far away; every cell, spectrum entry and detection observed after every step; non-trivial: points were inserted")
CHECKS["C24"] = dict(src=["C24_hough_lines.cpp"], libs=["common", "geometry"],
   skip=["box_registration.cpp", "hough_plane_detector.cpp", "correspondence_graph_association.cpp", "gis.cpp", "base_geometry2.cpp"],
   rule="histories of insertions, resets, re-initialisations and window changes on parameter spaces of 1 to 90 cells per side with default and given ranges; points on lines of the space, on lattices, around the first and last distance and far away; every cell, spectrum entry and detection observed after every step; non-trivial: points were inserted")
CHECKS["C25"] = dict(src=["C25_plane_aligner.cpp"], incdirs=["/usr/include/pcl-1.14"], link=["-lpcl_common"],
   rule="planes in all directions (also along the axes), any scale and sign of the coefficients, through the origin or not; clouds of 0 to 60 points on, near and away from the plane with invalid points, aligner reused; points within 1e-4 of the tolerance excluded; non-trivial: distinct plane and cloud")
CHECKS["C27"] = dict(src=["C27_guards.cpp:0", "C27_guards.cpp:1"], libs=["common", "geometry"],
   skip=["box_registration.cpp", "correspondence_graph_association.cpp", "gis.cpp", "base_geometry2.cpp"],
   rule="each checked precondition violated by one or by many in a forked child (heaps emptied by random histories, empty domains, dimensions, orders and detector cells just and far outside, lists of different length) next to a valid call of the same operation; non-trivial: distinct operation and arguments")
CHECKS["C28"] = dict(src=["C28_threads.cpp:0", "C28_threads.cpp:1", "C28_threads.cpp:2", "C28_threads.cpp:3"], incdirs=["/usr/include/pcl-1.14"], link=["-lpcl_common"], libs=["common", "geometry"], skip=["box_registration.cpp"], san="tsan", shards=4,
   rule="three to six threads each running every operation of the library (own objects, and shared objects only read) in random or equal order with jitter, and recording measures in the common profiler; threads run before the same jobs run alone, so lazily initialised state is first touched concurrently; non-trivial: distinct pair of operations seen at the same time")
CHECKS["C29"] = [dict(src=["C29_repeatable.cpp:0", "C29_repeatable.cpp:1", "C29_repeatable.cpp:2", "C29_repeatable.cpp:3"], incdirs=["/usr/include/pcl-1.14"], link=["-lpcl_common", "-Wl,--wrap=malloc"], libs=["common", "geometry"], skip=["box_registration.cpp"], san="noise",
   rule="every operation of the library, as the only one of a process and after up to twelve others, with dead stack and fresh heap memory overwritten by eight patterns at every function entry, exit and allocation; the digests of all results must agree, and stream formats, locale, rounding mode, directory and environment stay; non-trivial: distinct operation, pattern and history class"),
 dict(reuse=0, wrap=["valgrind", "-q", "--tool=memcheck", "--exit-on-first-error=yes", "--error-exitcode=66", "--leak-check=no", "--undef-value-errors=yes"], env={"VMON_MEMCHECK": "1"},
   rule="the same operations under memcheck: no result or branch depends on memory that was never written")]
