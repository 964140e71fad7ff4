"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=observe or []))


C = "common/include/rofl/common/"
S = "common/src/"
G = "geometry/include/rofl/geometry/"
GS = "geometry/src/"

prop("C01", "Double-ended heap always serves the true minimum and maximum",
     "After any sequence of insertions and removals at either end, the heap reports the smallest and the largest stored item (and the second smallest and second largest when asked for the next top or next bottom), its size and emptiness match what was inserted minus what was removed, and removals return exactly the stored items in order. This holds for every comparator, including ones under which many items tie, and for every underlying container.",
     ["histories", "inputs"], "all sequences of push / popTop / popBottom over all item values and comparators, observed after every operation",
     "The test fills the heap once and prints; corruption needs particular shapes (even/odd level, grandchild versus child swaps, ties) reached only after mixed removals from both ends.",
     [C + "min_max_heap.h"], [dict(name="heapUp/heapDown on alternating min and max levels", where=C + "min_max_heap.h")],
     "runtime model monitor (sorted multiset) after every operation, under ASan+UBSan",
     "Every operation of every explored history is compared with a reference multiset; exploration, not proof.")

prop("C02", "Integer boxes behave as sets of cells and traversals visit each cell once",
     "An integer box in any dimension contains exactly the cells between its minimum and maximum corner: membership, size (0 when empty), emptiness, intersection, stacking of dimensions and translation all agree with that set. The raster traversal and the boustrophedon traversal each visit every cell of the box exactly once, the raster order with the first coordinate running fastest, and consecutive boustrophedon cells differ by one unit in exactly one coordinate.",
     ["inputs", "configurations"], "all boxes (corners, sides, offsets, dimensions 1 to 5, including empty ones) and all traversals of them",
     "The test walks one small box and prints; parity of the sides, three or more dimensions and empty boxes are never exercised or asserted.",
     [C + "interval_indices.h"], [dict(name="RasterIndexer / BoustrophedonIndexer", where=C + "interval_indices.h"), dict(name="IntervalIndices::intersect, inside, size", where=C + "interval_indices.h")],
     "set-of-cells oracle over executed traversals, under ASan+UBSan",
     "Every cell of every explored box is compared with a brute-force enumeration.")

prop("C03", "Grid cells are independent variables addressed one-to-one",
     "In a grid of any dimension and size, the mapping between cell coordinates and linear positions is one-to-one and mutually inverse, a write through any accessor is read back through every accessor, and it changes no other cell. Positions outside the grid are reported as outside, a copy never shares cells with the original, and re-initialisation gives exactly the cells of the new box.",
     ["histories", "inputs", "configurations"], "all grid shapes and all histories of writes and reads",
     "The test stores one pattern in one fixed-size grid; aliasing depends on the sides and on which accessor is used.",
     [C + "grid.h"], [dict(name="getPos/getIndices", where=C + "grid.h")],
     "per-cell model of every write, full bijection sweep, under ASan+UBSan",
     "Compares all cells with a model after each batch of writes.")

prop("C04", "Peak detection reports exactly the window-dominant cells",
     "For any values over a rectangular domain, any per-axis window and any value filter, the peak detector reports a cell exactly when it is strictly better than every other cell of its window clipped to the domain and, with the filter enabled, strictly better than the threshold. No cell is reported twice, peaks are reported best first, and the landscape is never evaluated outside the domain.",
     ["inputs", "configurations"], "all landscapes, domains of 1 to 4 dimensions, window sizes and filters, for maxima and minima",
     "The test detects peaks of one smooth 2-D landscape and prints them; plateaus, borders, wide windows and more dimensions are not asserted.",
     [C + "peak_finder_d.h"], [dict(name="sliding window min-max queue in PeakFinderD::detect", where=C + "peak_finder_d.h")],
     "definition-level oracle (brute force over the domain) on executed detections, under ASan+UBSan",
     "Every cell of every explored landscape is classified by the oracle.")

prop("C05", "Disjoint sets stay a partition under any history of unions",
     "After any history of creating nodes and joining sets, two nodes have the same representative exactly when a chain of joins connects them; the representative belongs to its set, and the number of sets, the number of nodes, the size of each set and the list of representatives match the partition. Joining or querying an invalid node leaves the partition unchanged and never accesses memory out of bounds.",
     ["histories", "inputs"], "all histories of initialise / make / join / find / size, including invalid ids",
     "The test joins a handful of nodes and prints; path compression and union by rank only go wrong on deep histories.",
     [C + "disjoint_set.h", S + "disjoint_set.cpp"], [dict(name="find with path compression, join by rank", where=S + "disjoint_set.cpp")],
     "explicit partition model compared after every operation, under ASan+UBSan",
     "Exploration of histories up to thousands of nodes.")

prop("C06", "Label sets obey set algebra",
     "A label set holds exactly the distinct labels inserted into it and not removed, in increasing order and without duplicates, whatever the order and mode of insertion. Membership, size, union, intersection, difference, equality and inequality all agree with mathematical sets (operands unchanged, insertion reporting whether the label was already there), and printing shows exactly the members.",
     ["histories", "inputs"], "all histories of insertions, set operations and comparisons over all label values",
     "No test covers label sets beyond construction; equality of sets where one is a prefix of the other is never asserted.",
     [C + "label_set.h", S + "label_set.cpp"], [dict(name="sorted unique vector of labels", where=C + "label_set.h")],
     "std::set model compared after every operation, under ASan+UBSan",
     "Exploration of histories over four interacting sets.")

prop("C07", "Integer bit utilities agree with arithmetic for every value",
     "Counting leading zeros, rounding down (towards minus infinity) and up to a signed power of two and the integer base-2 logarithm of the magnitude of a non-zero value give the arithmetically defined result for every value of every 8, 16, 32 and 64 bit integer type, whenever that result is representable. No input causes undefined behaviour.",
     ["inputs"], "every 8, 16, 32 and 64 bit signed and unsigned value",
     "The test prints a few values; wrong masks or shift counts show only for particular bit widths and magnitudes.",
     [C + "bit_manip.h", S + "bit_manip.cpp", C + "numeric_traits.h"], [dict(name="nlz/flp2/clp2 per width, IntegerTraits", where=S + "bit_manip.cpp")],
     "arithmetic oracle on wide integers, exhaustive for 8/16 bits (32 bits in the thorough tier), under ASan+UBSan",
     "Exhaustive for 8 and 16 bits; structured and random for 64 bits.")

prop("C08", "Floating-point field decomposition is exact and reversible",
     "Splitting any non-NaN float or double into sign, exponent and mantissa yields exactly the IEEE-754 fields, the fields reconstruct the original value bit by bit, and the published field masks, widths and exponent range select those same fields. This holds for zeros, subnormals, infinities and all normal values.",
     ["inputs"], "every non-NaN float and double bit pattern",
     "The test prints a couple of values; each exponent and subnormals are separate cases and double uses different field widths from float.",
     [C + "numeric_traits.h", C + "bit_manip.h", S + "bit_manip.cpp"], [dict(name="FloatTraits masks and shifts", where=C + "numeric_traits.h")],
     "bit-level oracle (frexp/ldexp/memcpy), all exponents, under ASan+UBSan; thorough covers every float",
     "Exhaustive on exponents and (thorough) on all floats.")

prop("C09", "Morton comparison is the Z-order total order",
     "Comparing two points in Morton order gives the order of the interleaved bits of their coordinates for integers (with negative values before non-negative) and the order decided by the coordinate with the highest differing binary digit for floating-point values. The comparison is a strict weak order (irreflexive, asymmetric, transitive, total up to equal points), it is monotone in each coordinate, and it is defined for all finite inputs including signed zeros, extremes and subnormals. The bit difference of two floating-point values has the digits in which they differ (when it is a normal value): it is zero for equal values and infinite for values of opposite signs.",
     ["inputs"], "all points of 1 to 4 coordinates over all supported integer and floating-point types",
     "The test sorts one small set of non-negative values; transitivity and sign handling need triples and mixed-sign inputs.",
     [C + "morton_sort.h", C + "numeric_traits.h", C + "bit_manip.h"], [dict(name="msb comparison without interleaving", where=C + "morton_sort.h")],
     "reference comparator plus order-law monitor on all triples of point clusters, under ASan+UBSan",
     "Pairs and triples of adversarial clusters.")

prop("C10", "Morton blocks, levels and split points are the exact dyadic ones",
     "For any two integers the reported interval is the smallest aligned power-of-two block that contains both, with its level and middle value; for floating-point values it is the block of values sharing all binary digits above their highest differing one. For any two points the reported subtree distance is the largest such level over the coordinates, and the split point lies in the box of the two points, differs from its lower corner only along the widest coordinate, and (for integers) separates the box in Morton order.",
     ["inputs"], "all pairs of values of every supported type and all pairs of points",
     "The test prints a few intervals; full-range, equal and opposite-sign pairs and 64-bit shifts are not asserted.",
     [C + "morton_sort.h", C + "numeric_traits.h", C + "bit_manip.h"], [dict(name="intervalPow2Int / intervalPow2Float / MortonTraits::split", where=C + "morton_sort.h")],
     "wide-integer dyadic oracle, exhaustive on 8-bit pairs, under ASan+UBSan",
     "Exhaustive for 8-bit pairs, structured random elsewhere.")

prop("C11", "Morton tree keeps every item and answers box queries exactly",
     "After any history of insertions the tree holds exactly the inserted items with their identifiers (or the running number when identifiers are reassigned), and sorting puts them in Morton order without losing or altering any. A box or ball-bounding-box query returns every stored item inside the closed box once and no other, a point query returns the first position not preceding the point, and the level of a range is the largest level among the items in it.",
     ["histories", "inputs"], "all histories of insertions, sorts and queries over all coordinate types and point distributions",
     "The test runs one query on random data and prints; pruning mistakes depend on where the box crosses the split planes.",
     [C + "morton_tree.h", S + "morton_tree.cpp", C + "morton_sort.h"], [dict(name="recursive split of the sorted range in searchInBox", where=C + "morton_tree.h")],
     "full-scan oracle after every operation of a history, under ASan+UBSan",
     "Every query compared with a scan over a model of the items.")

prop("C12", "Scalar consensus returns a least-cost consensus and its inliers",
     "Given measurements with ranges, the consensus estimate is the precision-weighted mean of all the measurements whose intervals contain some common point, the point chosen so that the group's squared residuals plus the ranges of the measurements left out is minimal. The inlier flags have one entry per measurement and mark exactly those closer to the estimate than their range; the inputs are not modified.",
     ["inputs"], "all measurement sets and ranges (up to ties within rounding), in float and double",
     "The test runs one sample and prints the estimate; the running sums of the sweep only go wrong on specific interval orders.",
     [C + "tls_scalar_consensus.h"], [dict(name="endpoint sweep with running sums", where=C + "tls_scalar_consensus.h")],
     "enumeration of all consensus sets as oracle, long double, under ASan+UBSan",
     "Inputs whose interval endpoints coincide within rounding are excluded.")

prop("C13", "Parameter maps keep the last value given, whatever its source",
     "A parameter map holds, for every name, the last value given to it by code, by a text file or by the command line; comments, blank lines and line length do not matter and no other parameter changes. Typed reads return the stored value converted to the requested type, a read of an absent name returns the given default and records it, containers are filled element by element, a leading ~/ is replaced by the home directory, and writing then reading a map of one-word values restores it.",
     ["histories", "inputs"], "all histories of sets, reads and writes over names and values without blanks, and all texts of such lines",
     "The tests pass a couple of options; parsing mistakes depend on the layout of lines, on repeated names and on the order of sources.",
     [C + "param_map.h", S + "param_map.cpp"], [dict(name="read of streams and command lines, getParam, getParamContainer, adaptTildeInPaths", where=S + "param_map.cpp")],
     "string-map model compared with the whole written content after every operation, under ASan+UBSan",
     "Names and values are non-empty and without blanks; floating-point values to the digits of the text.")

prop("C14", "Directory listings and time stamps report what the system says",
     "Listing a directory adds to the caller's list the path of every regular file in it, once, and nothing else (no subdirectory, pipe or dangling link; links to files count), and leaves the list sorted. A stamped string is the prefix, the local date and time of the call in the form YYYYMMDD_HHMM_SS, and the postfix.",
     ["inputs", "configurations"], "all directory contents and names, and all times and time zones",
     "The test lists one directory and prints; kinds of entries, odd names and other time zones never occur in it.",
     [C + "io.h", S + "io.cpp"], [dict(name="getDirectoryFiles, generateStampedString", where=S + "io.cpp")],
     "listing compared with the directory the monitor built, stamp bracketed by the clock under many time zones, ASan+UBSan",
     "Directories are created in a scratch folder of the check.")

prop("C15", "Profiler statistics match the recorded measures",
     "For every label the profiler prints the number of recorded measures and their mean, unbiased variance (0 for one measure), minimum and maximum, independently of the other labels and of the order of recording. A scoped timer, also through the macro, records exactly one measure per scope, the milliseconds from its creation to the end of its scope; the macro uses a label of its own for every function and line.",
     ["histories", "inputs"], "all sequences of measures over all labels, and all scopes",
     "No test reads the statistics back; the running formulas only go wrong after a few measures of particular values.",
     [C + "profiler.h", S + "profiler.cpp"], [dict(name="online mean and variance in updateStat, ScopedTimer", where=S + "profiler.cpp")],
     "two-pass long double statistics against the printed table after every update; clock bracketing of timers; ASan+UBSan",
     "Variance within 1e-9 of the squared magnitude.")

prop("C16", "Fast trigonometry stays within its error bounds",
     "The fast cosine and sine are within 0.0012 of the true values, the fast arctangent (arguments between -1 and 1) within 1.5e-5 and the fast two-argument arctangent within 2e-5 in every quadrant, in [-pi,pi] (either end on the negative x axis), in single and double precision. Angle normalisation returns the congruent angle in [0,2pi] or [0,pi], and Fourier evaluation equals the direct sum of the series.",
     ["inputs"], "all angles, all points of the plane except the origin, all coefficient vectors",
     "No test compares with the true functions; errors appear only in particular octants, near axes or at large angles.",
     [C + "functions.h", S + "functions.cpp"], [dict(name="polynomial approximations with quadrant reduction", where=S + "functions.cpp")],
     "long double reference at adversarial arguments, under ASan+UBSan",
     "Single-precision angle reduction error grows with the angle and is allowed for.")

prop("C17", "Bounds of cosine and Fourier series over intervals are exact and enclosing",
     "For any interval of angles the reported lower and upper bounds of the cosine are its true minimum and maximum on the interval. For any Fourier series they enclose every value the series takes on the interval, and they are no wider than the sum of the exact ranges of its harmonics.",
     ["inputs"], "all intervals (also wider than a turn or with swapped ends) and all series",
     "No test covers the bounds; whether an interval contains an extreme is a case analysis over quadrants.",
     [C + "functions.h", S + "functions.cpp"], [dict(name="findLUCos, findLUFourier", where=S + "functions.cpp")],
     "exact extremes by case-free long double reasoning plus dense samples, under ASan+UBSan",
     "Harmonic ranges within rounding of a whole turn are excluded from the exact comparison.")

prop("C18", "Scaled Bessel functions and their look-up table meet their accuracy",
     "The order-0 value is within 1e-6 of 2 exp(-x) I_0(x) and the vector of orders 0 to n within 4e-6 of its largest entry, for every order and argument of either sign. A look-up table initialised with an order and a tolerance returns every order up to its maximum within that tolerance, equally through single and vector evaluation and for x and -x, also after being initialised again.",
     ["inputs", "configurations"], "all orders, arguments and table tolerances",
     "No test compares with true values; errors show only in particular ranges of order and argument.",
     [C + "functions.h", S + "functions.cpp"], [dict(name="evaluatePnebi0Polynom, evaluatePnebiVector, PnebiLUT", where=S + "functions.cpp")],
     "Miller recurrence in long double as reference, under ASan+UBSan",
     "Orders up to 60 and arguments up to 1e5.")

prop("C19", "Planar poses, angles and orientation predicates are geometrically correct",
     "A pose becomes the rigid motion with that rotation and translation; angle normalisation returns the congruent angle in [0,2pi]; an angle is inside an interval exactly when going counter-clockwise from the begin it is met before the end (begin included, end only in the form with equality, also across zero). The orientation of three points is twice the signed area of their triangle.",
     ["inputs"], "all poses, angles, intervals and point triples",
     "No test covers these functions; wrapped intervals and ends are separate cases.",
     [G + "base_geometry2.h", GS + "base_geometry2.cpp"], [dict(name="poseToIsometry2, normalizeAngle2Pi, insideAngleInterval, ccw", where=GS + "base_geometry2.cpp")],
     "long double formulas as reference, under ASan+UBSan",
     "Angles within 1e-4 of an interval end are excluded unless equal to it.")

prop("C20", "Geodetic conversions agree with the WGS84 ellipsoid and are reversible",
     "Conversion of latitude, longitude and altitude to Earth-centred coordinates agrees with the WGS84 ellipsoid within single precision (3 m). The metres per degree follow the documented AlvinXY series and agree with the ellipsoid, the local coordinates of a point are its metres east and north of the origin (longitude scaled at the latitude of the origin), and converting to local coordinates and back returns the same place.",
     ["inputs"], "all coordinates and origins (local conversion up to 85 degrees of latitude and 20 km)",
     "No test covers the conversions; mistakes show only away from particular latitudes.",
     [G + "gis.h", GS + "gis.cpp"], [dict(name="convertLatLonAltToECEF, convertLatLonToLocalXY, convertLocalXYToLatLon", where=GS + "gis.cpp")],
     "ellipsoid formulas in long double as reference, under ASan+UBSan",
     "Tolerances are those of single precision.")

prop("C21", "Box registration finds nearest surface points and optimal rigid updates",
     "The point associated to a query is a nearest point of the surface of the box. A registration step returns a proper rigid motion that is the best one for the associations of the previous estimate, so the squared distance of the cloud from the box never grows. The initial estimate is a proper rigid motion centred on the cloud whose axes are the principal directions, with longer sides along larger spreads.",
     ["inputs", "histories"], "all boxes and clouds in 2 and 3 dimensions, float and double, from any estimate",
     "No test covers box registration; corners, equal sides, flat and degenerate clouds and reflections are separate cases.",
     [G + "box_registration.h", GS + "box_registration.cpp"], [dict(name="associate, computeTransform (SVD), estimateInitTranform (PCA)", where=G + "box_registration.h")],
     "closed-form optimum (quaternion eigenvalue / planar angle) in long double as oracle on every step, under ASan+UBSan",
     "Optimality within rounding; degenerate optima compared by cost.")

prop("C22", "Association returns exactly the largest mutually coherent associations",
     "Given source and destination items with their pairwise distances, association returns all the largest sets of pairs that are one-to-one and mutually coherent (distances equal within the tolerance and at least the minimum distance), each once, and nothing else. The result depends only on the items last given, so an object can be reused.",
     ["inputs", "histories"], "all item sets, tolerances and minimum distances, and all sequences of reuse",
     "The test associates one example; ties, symmetric configurations, repeated distances and reuse are not asserted.",
     [G + "correspondence_graph_association.h", GS + "correspondence_graph_association.cpp"], [dict(name="compatibility graph and Bron-Kerbosch", where=GS + "correspondence_graph_association.cpp")],
     "exhaustive search of largest coherent associations as oracle, under ASan+UBSan",
     "Up to 5 (thorough 6) items per side; differences within 1e-4 of the tolerance excluded.")

prop("C23", "Plane Hough transform counts points and reports its true peaks",
     "Each cell of the transform holds the number of inserted points whose distance along the normal of its direction falls in its range of distances, points outside the range being counted nowhere; insertions accumulate until the counts are reset. The spectrum of a direction is the sum of its squared counts, normals and plane parameters are those of the cell indices, and the detected normals and planes are exactly the window-dominant cells, planes with more points first. Without given ranges the detector covers the half sphere of normals and distances centred on zero.",
     ["inputs", "histories", "configurations"], "all point sets, parameter ranges, resolutions and windows, and all sequences of insertion, reset and detection",
     "The only program needs a cloud file and a window and is not run; few bins, other minimum distances and points just outside the range matter.",
     [G + "hough_plane_detector.h", GS + "hough_plane_detector.cpp", C + "peak_finder_d.h", C + "grid.h"], [dict(name="HoughPlaneDetector::insert, findPlanes, getPlaneParam", where=GS + "hough_plane_detector.cpp")],
     "direct count of every cell and brute-force peaks after every step, under ASan+UBSan",
     "Points within rounding of a cell border may be counted on either side.")

prop("C24", "Line Hough transform counts points and reports its true peaks",
     "Each cell of the transform holds the number of inserted points whose distance along the direction falls in its range of distances; insertions accumulate until the counts are reset. The spectrum of an angle is the sum of its squared counts, and the detected angles, normals and lines are exactly the window-dominant cells. Without given ranges the detector covers half a turn of angles and distances from zero.",
     ["inputs", "histories", "configurations"], "all point sets, parameter ranges, resolutions and windows, and all sequences of insertion, reset and detection",
     "No test covers the line detector.",
     [G + "hough_line_detector.h", GS + "hough_line_detector.cpp", C + "peak_finder_d.h", C + "grid.h"], [dict(name="HoughLineDetector::insert, findSpectrum*, findLines", where=GS + "hough_line_detector.cpp")],
     "direct count of every cell and brute-force peaks after every step, under ASan+UBSan",
     "Points within rounding of a cell border may be counted on either side.")

prop("C25", "Plane alignment is a rigid motion that levels the given plane",
     "For any plane coefficients (of any scale and sign) and any cloud, the computed transformation is a proper rigid motion that turns the normal facing the origin into the Z axis, keeps heights along it, and puts the centroid of the points nearer to the plane than the tolerance at x = y = 0 (no shift without such points). The transformed cloud is the input cloud moved by it, the input is unchanged, and invalid points do not affect the result.",
     ["inputs"], "all planes, tolerances and clouds, and reuse of the aligner",
     "No test covers the aligner; normals along each axis, flipped and scaled coefficients are separate cases.",
     ["pcl/include/rofl/pcl/point_cloud_plane_aligner.h"], [dict(name="PointCloudPlaneAligner::compute", where="pcl/include/rofl/pcl/point_cloud_plane_aligner.h")],
     "plane geometry in long double as oracle for every alignment, under ASan+UBSan",
     "Points within 1e-4 of the tolerance excluded; a plane through the origin may face either way.")

prop("C26", "Vector arrays add, subtract, scale, multiply and divide component by component",
     "Every operator of a vector array gives, in each component, the result of the operation on the corresponding components, leaves its operands unchanged, and compound assignments change and return their object. Copies are independent.",
     ["inputs"], "all arrays of any size over integer and floating-point values",
     "No test covers the operators.",
     [C + "vector_array.h"], [dict(name="VectorArray operators", where=C + "vector_array.h")],
     "component-wise reference on every operator, under ASan+UBSan",
     "Sizes 1 to 7 and five value types.")

prop("C27", "Calls outside checked preconditions are refused, never undefined",
     "Reading or removing from an empty heap, detecting peaks over an empty domain, stacking or translating along a dimension that does not exist, consensus over lists of different length, a look-up order out of range and reading detector cells out of range are refused (the call terminates the process with a failure status or throws) without touching memory out of bounds or returning a made-up value. The neighbouring valid calls are accepted.",
     ["inputs", "histories"], "all states and arguments violating those preconditions by any amount, and valid ones at their edge",
     "A refused call ends the test program, so no test makes one.",
     [C + "macros.h", C + "min_max_heap.h", C + "peak_finder_d.h", C + "interval_indices.h", C + "tls_scalar_consensus.h", S + "functions.cpp", GS + "hough_plane_detector.cpp", GS + "hough_line_detector.cpp"],
     [dict(name="ROFL_ASSERT family", where=C + "macros.h")],
     "fault injection: each violating call in a forked child whose end is classified, under ASan+UBSan",
     "The way of refusing (exit, abort, exception) is free.")

prop("C28", "Threads with their own objects do not interfere",
     "Any number of threads that work on objects of their own, or only query a shared object nobody is changing (a sorted tree, an initialised table, a filled grid, detector, label set, heap or parameter map), get the same results as alone and without data races, in all parts of the library. Measures recorded in the common profiler by several threads are all counted.",
     ["schedules", "histories"], "all interleavings of any operations of the library on disjoint or unmodified objects",
     "The tests use one thread; shared hidden state (static variables, the profiler singleton, C library buffers) is harmless there.",
     [S + "profiler.cpp", C + "profiler.h", S + "io.cpp", C + "morton_tree.h", C + "peak_finder_d.h", S + "functions.cpp", GS + "hough_plane_detector.cpp", GS + "correspondence_graph_association.cpp"],
     [dict(name="Profiler singleton; absence of other shared state", where=S + "profiler.cpp")],
     "ThreadSanitizer on real threads plus comparison of every job's results with those when run alone",
     "Diagnostics printed on std::cout are excluded.")

prop("C29", "Results depend only on the calls made",
     "Every operation of the library gives the same results for the same calls and arguments: whatever ran before in the process, however often it is repeated and whatever unused memory happens to hold; objects used with their defaults behave the same every time. Operations leave the formats of the standard streams, the locale, the rounding mode, the working directory and the environment of the process as they were.",
     ["histories", "inputs"], "all operations after any history of other operations, for any contents of uninitialised memory",
     "A test runs an operation once in a fresh process, where unused memory mostly holds zeros and no earlier call left anything behind.",
     [C + "peak_finder_d.h", C + "morton_tree.h", C + "disjoint_set.h", S + "functions.cpp", "geometry/include/rofl/geometry/hough_plane_detector.h", GS + "hough_plane_detector.cpp", GS + "correspondence_graph_association.cpp"],
     [dict(name="constructors and member initialisation; absence of static state", where="common/include/rofl/common")],
     "digest of every result in a fresh process against the digest after random histories with stack and heap overwritten by patterns at every call and allocation; snapshot of process state",
     "Operations are those of C28; memory above 1 MiB per allocation is not overwritten.")
