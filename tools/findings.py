#!/usr/bin/env python3
"""Writes known_findings.json from the fix: commits of /repo (subject -> property, what failed)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = {
 "MinMaxHeap heapDownMin must stop": ("C01", "after some popTop the heap order was violated and a later top/bottom was not the true extreme"),
 "MinMaxHeap nextTop": ("C01", "nextTop ignored a root child without children and returned an item that is not the second smallest"),
 "MinMaxHeap nextBottom": ("C01", "nextBottom did not return the second largest item"),
 "BoustrophedonIndexer": ("C02", "boustrophedon traversal jumped between non-adjacent cells in 3 or more dimensions with odd sides"),
 "IntervalIndices size": ("C02", "size() of an empty box with negative sides was not 0"),
 "PeakFinderD must evaluate": ("C04", "a peak at the first cell of the domain was never reported"),
 "PeakFinderD misses": ("C04", "peaks missed because of stale or repeated items in the window queue"),
 "DisjointSet makeSet": ("C05", "the number of sets did not count nodes created one by one"),
 "DisjointSet join": ("C05", "join/size with an invalid node id read out of bounds"),
 "LabelSet stream": ("C06", "operator<< of label sets could not be linked from two translation units"),
 "LabelSet comparison": ("C06", "a set compared equal to (or read past the end of) a set of different size"),
 "IntegerTraits<int64_t>::log2Mod": ("C07", "log2 of 64 bit magnitudes counted zeros on 32 bits"),
 "undefined negation": ("C07", "negation of the lowest 32/64 bit integers was undefined behaviour"),
 "FloatTraits<double> exponent": ("C08", "the exponent width of double was published as 8 instead of 11"),
 "Morton order of floating points must handle 0.0": ("C09", "0.0 and -0.0 were ordered"),
 "Morton order of negative": ("C09", "order of negative floating points not transitive"),
 "Morton order of floating points with differences": ("C09", "differences below the exponent range were compared wrongly"),
 "intervalPow2Int shifts": ("C10", "undefined shifts with equal values and blocks over 2^30"),
 "intervalPow2Int mid": ("C10", "middle of the whole unsigned range was wrong"),
 "intervalPow2Float": ("C10", "undefined shifts with equal values and double precision"),
 "MortonTree searchInBox": ("C11", "box search missed or added items"),
 "MortonTree insert": ("C11", "insert without id reset replaced the id"),
 "ParamMap read must not stop at lines longer": ("C13", "a line longer than 2000 characters ended the reading of the whole text"),
 "ParamMap adaptTildeInPaths": ("C13", "tilde expansion used an invalid iterator and skipped paths with another tilde"),
 "Profiler getVariance": ("C15", "the printed variance was not the variance of the measures"),
 "Profiler mean must": ("C15", "the mean was updated with the previous number of measures"),
 "scoped timer macro": ("C15", "the macro timed an anonymous temporary instead of its scope"),
 "evaluatePnebiVector is inaccurate": ("C18", "the recurrence lost all accuracy for arguments larger than the order"),
 "PnebiLUT eval must accept": ("C18", "the maximum order of the table was refused or not evaluated"),
 "PnebiLUT init accesses": ("C18", "a table of order 0 was built with an access out of bounds"),
 "local XY conversion": ("C20", "east coordinates were scaled by the longitude instead of the latitude"),
 "BoxRegistration computeTransform": ("C21", "the reflection of a step was corrected along the wrong axis"),
 "BoxRegistration initial transformation": ("C21", "the initial estimate could be a reflection"),
 "CorrespondenceGraphAssociation must forget": ("C22", "results of a reused object contained items of the previous use"),
 "CorrespondenceGraphAssociation must return": ("C22", "some of the largest associations were missing"),
 "VectorArray operators": ("C26", "operators returned arrays whose components were never assigned"),
 "VectorArray scaling": ("C26", "v *= v[i] scaled the components after i by the already scaled factor"),
 "HoughPlaneDetector insert divides": ("C23", "insertion divided by zero with fewer than 8 longitude bins"),
 "HoughPlaneDetector insert must not count": ("C23", "points under the minimum distance were counted in the first cell"),
 "HoughPlaneDetector getPlaneParam": ("C23", "plane parameters ignored the minimum distance"),
 "HoughLineDetector insert": ("C24", "insertion of points did nothing"),
 "PointCloudPlaneAligner": ("C25", "the inliers depended on the scale of the plane coefficients"),
 "Profiler singleton": ("C28", "data race on the statistics between threads using timers or the plane detector"),
 "scalar consensus must not": ("C12", "single precision: the rounding errors left after all intervals ended were taken as the least-cost group and the estimate was noise (float values with a spread of 100, case 366192 of the thorough run)"),
 "must not add the identity to the covariance": ("C21", "boxes of millimetres or centimetres in metres, single precision: the axes of the initial estimate were not the principal directions and longer sides lay along smaller spreads"),
 "also for large arguments": ("C18", "orders above 0 for arguments above about 1e7: the recursion started too low and PNEBI(1,1e8) was a third below its value, less than PNEBI(2,1e8)"),
 "generateStampedString": ("C28", "data race on the static buffer of localtime"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    k = [k for k in F if k in s]
    assert len(k) == 1, (s, k)
    fixed.append("fixed: property=%s %s %s" % (F[k[0]][0], h, F[k[0]][1]))
kf = os.path.join(V, "known_findings.json")
known = json.load(open(kf))["known"] if os.path.exists(kf) else []
json.dump(dict(known=known, fixed=fixed), open(kf, "w"), indent=1)
open(kf, "a").write("\n")
print(len(fixed), "fixed", len(known), "known")
