#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that it stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=mech, where=", ".join(files))]))
    if state: d["anchors"]["state"] = state
    P.append(d)

prop("A01", "Assignment solver is optimal and detects infeasibility",
 "For every rectangular cost matrix with at least as many columns as rows, whose entries are finite (of either sign) or infinite for forbidden pairs, solving the assignment problem either returns distinct columns for all rows, each allowed, with the least possible total cost, or reports that no complete assignment exists. It reports failure exactly when no complete assignment over allowed pairs exists, and it always terminates.",
 ["inputs"], "all cost values and all forbidden-entry patterns of the stated matrix sizes",
 "The tests solve a handful of fixed matrices; which branch of the shortest-path search runs depends on the relative order of sums of all entries and on ties.",
 ["include/rlapjv.h"], "augmenting row reduction plus Dijkstra augmentation over reduced costs; Hall-condition feasibility pre-check")
prop("A02", "Ranked assignments come out in cost order with true costs",
 "Successive draws of the k-best assignment enumeration have nondecreasing cost for every cost matrix. The cost reported with each draw equals the sum of the original matrix entries selected by that assignment, also when the matrix contains negative entries.",
 ["inputs", "histories"], "all cost values and forbidden patterns of the stated sizes, and every prefix of the draw sequence",
 "The tests check a few constant matrices; ordering depends on lower bounds attached to unexplored partitions, which are wrong only for particular cost orders.",
 ["include/murty.hpp"], "priority queue of partitions with dual lower bounds, offset for negative costs")
prop("A03", "Ranked enumeration yields every feasible assignment exactly once",
 "Drawing until exhaustion produces each complete assignment over allowed pairs exactly once, and then reports exhaustion; it produces nothing else. This holds also when several assignments tie and when the problem has no complete assignment at all.",
 ["inputs", "histories"], "all cost values (ties included) and forbidden patterns of the stated sizes, drawn to exhaustion",
 "Tests count the draws for a few constant matrices; lost or duplicated partitions depend on tie and infinity patterns.",
 ["include/murty.hpp"], "partitioning of the solution space into with/without nodes and index remapping of shrunken matrices")
prop("S01", "Spatial index queries are exact after any update history",
 "After any sequence of insertions, removals and clears, a rectangle or point query on the spatial index reports exactly the stored entries whose rectangle meets the query (touching edges count), each exactly once. Removing an entry removes that entry and no other, whatever splits and re-insertions this causes.",
 ["histories", "inputs"], "histories of inserts and removals up to the stated length with symbolic rectangles and symbolic query windows, several fan-outs",
 "The tests never build a tree deep enough to split internal nodes and query fixed windows only.",
 ["include/RTree.h"], "node splitting, covering-rectangle maintenance, subtree re-insertion after underfull nodes")
prop("S02", "Spatial index count, iteration and save/load agree with its content",
 "After any sequence of insertions, removals and clears, the reported entry count and a full iteration both agree with the set of stored entries. Saving the index and loading it back gives an index with the same entries that answers every query identically.",
 ["histories", "inputs"], "histories up to the stated length with symbolic rectangles, followed by count, iteration or save/load and symbolic queries",
 "No test iterates, counts or saves a tree.",
 ["include/RTree.h"], "recursive count, stack based iterator, recursive stream writer and reader")
prop("S03", "Target store hands out unique identities and finds targets by area",
 "Every target created gets an identity that no other target of that store has had before, also after erasures. After any sequence of create, take-out, put-back and erase operations, an area or point query returns exactly the targets currently in the index whose bounding area meets the query, and the list of all targets holds exactly those not yet erased.",
 ["histories", "inputs"], "operation histories up to the stated length with symbolic target boxes and symbolic query windows",
 "The single test inserts three targets and runs one query.",
 ["include/targettree.hpp"], "owning list plus R-tree of raw pointers plus id counter")
prop("G01", "Axis-aligned boxes: membership and intersection are exact",
 "A box built from two opposite corners in any order has ordered limits; a point is inside exactly when both coordinates lie within the closed limits, and two boxes intersect exactly when they share a point (touching counts), symmetrically. The box of a set of points is the smallest one that contains them.",
 ["inputs"], "all finite coordinates of both boxes and of the point",
 "Tests use a few fixed boxes; a wrong comparison shows only for particular relative positions.",
 ["include/bbox.hpp"], "coordinate-wise comparison")
prop("G02", "Oriented boxes: membership and intersection are exact",
 "For every oriented rectangle a point off its boundary is reported inside exactly when it is inside the rectangle. Two rectangles are reported as intersecting, symmetrically, whenever their interiors overlap, and never when they are disjoint; the enclosing axis-aligned box of a rectangle is the tightest one.",
 ["inputs"], "all rectangle positions, sizes and the orientations stated in the bounds, all points",
 "Tests use six fixed box pairs; crossing configurations in which no corner lies in the other box depend on which box is taller and on orientation.",
 ["include/bbox.hpp"], "crossing-number point test, corner containment and diagonal-crossing test")
prop("G03", "Boxes built from a Gaussian bound its confidence ellipse",
 "The axis-aligned box built from a mean, a positive definite covariance and a number of standard deviations is centred on the mean and its half-widths equal that number times the standard deviation along each axis, so it tightly encloses the confidence ellipse. The oriented box built from the same data is a rectangle centred on the mean, aligned with the principal axes, whose half-lengths are that number times the principal standard deviations.",
 ["inputs"], "all means, positive definite 2x2 covariances and standard-deviation counts",
 "The tests only use isotropic or one fixed covariance, for which axis mix-ups are invisible.",
 ["include/bbox.hpp", "include/gaussian.hpp"], "eigen decomposition of the covariance")
prop("K01", "Local tangent-plane conversions are rigid and exactly invertible",
 "The rotation into the local north-east-down frame is orthonormal and right-handed at every origin, and converting earth-centred coordinates to local and back (or back and forth) reproduces the input exactly in real arithmetic. Conversions preserve distances and the origin itself maps to zero.",
 ["inputs"], "all origins (latitude, longitude, altitude) and all points",
 "Tests check a few fixed coordinates with loose tolerances.",
 ["include/cf.hpp"], "rotation matrix built from sines and cosines of the origin")
prop("K02", "Planar and full geodetic conversions agree with the reference ellipsoid",
 "A latitude/longitude at zero altitude converts to a point exactly on the WGS-84 ellipsoid, altitude moves the point along the local down axis by exactly that amount, and mirrored latitudes or rotated longitudes give mirrored or rotated points. The two-dimensional conversions agree with the three-dimensional ones at zero altitude, in both directions.",
 ["inputs"], "all latitudes, longitudes and altitudes",
 "Tests compare a few fixed coordinates with tabulated values.",
 ["include/cf.hpp"], "closed-form geodetic to earth-centred conversion and Olson's inverse")
prop("K03", "Geodetic conversion round trip is accurate",
 "Converting a latitude, longitude and moderate altitude to earth-centred coordinates and back reproduces the latitude to better than a nanodegree-scale error, the longitude exactly and the altitude to better than a millimetre, in both hemispheres and in both polar and equatorial regions.",
 ["inputs"], "all longitudes, latitudes and altitudes",
 "Tests check a few fixed places only.",
 ["include/cf.hpp"], "Olson's series with one Newton step and a branch on the latitude region")
prop("E01", "Measurement update is the Bayesian linear-Gaussian update",
 "Correcting a Gaussian state with a position report yields the mean and covariance of the exact linear-Gaussian posterior for every prior covariance, report covariance and measured position. The posterior covariance is symmetric and never larger than the prior in any direction.",
 ["inputs"], "all means, reports and the covariance families stated in the bounds",
 "Tests update one or two fixed states.",
 ["include/gaussian.hpp", "include/sensors.hpp"], "gain from the inverse innovation covariance")
prop("E02", "Association likelihood weights follow the measurement model",
 "Correcting a mixture component with a report multiplies its weight by the detection probability times the Gaussian density of the report given the predicted measurement, divided by the report's clutter intensity. The missed-detection value of a mixture is one minus its weighted detection probability, and the detection probability of the position sensor is the sensor's nominal value times the fraction of the state's probability that lies in the field of view, hence never outside zero to the nominal value.",
 ["inputs"], "all means, weights, detection probabilities, clutter values and innovation covariances within the stated families",
 "Tests never compare weights with the density formula away from fixed points.",
 ["include/gaussian.hpp", "include/report.hpp", "include/gm.hpp", "include/pf.hpp", "include/sensors.hpp"], "likelihood, pD overlap, kappa division")
prop("E03", "Prediction is linear-Gaussian and consistent over time splits",
 "Predicting propagates mean and covariance exactly by the motion model (constant velocity with integrated white-noise acceleration scaled by the process noise, or static with additive noise), keeps the mixture weights, and multiplies existence by the survival probability per scaled time unit. For the constant-velocity model, predicting over an interval in one step or split at any intermediate time gives the same mean, covariance and existence.",
 ["inputs", "histories"], "all states, covariances, noise levels, survival probabilities, durations and split points",
 "Tests run one or two fixed steps.",
 ["include/models.hpp", "include/gaussian.hpp", "include/target.hpp", "include/gm.hpp"], "F P F' + Q and power of the survival probability")
prop("E04", "Mixture normalisation and moments are exact",
 "Normalising a mixture reports its previous total weight and leaves weights that sum to one with unchanged ratios; a mixture with negligible total weight becomes empty with zero weight. Mean and covariance of a mixture are the weighted mean and the weighted spread-plus-component covariance.",
 ["inputs"], "all component counts up to the bound, all weights, means and covariances",
 "Tests use one two-component mixture.",
 ["include/gm.hpp"], "weight sum and moment matching")
prop("E05", "Mixture reduction keeps the heaviest components and total probability",
 "Joining association hypotheses or adding mixtures keeps exactly the heaviest weighted components up to the capacity and the relative or absolute weight threshold, in descending order of weight, with their means and covariances untouched. The result is renormalised to total weight one with the kept ratios, and no component below the threshold survives while a heavier one is dropped.",
 ["inputs"], "all weights and thresholds, component and hypothesis counts up to the bound",
 "Tests join a single small example; the order in which components of different hypotheses interleave depends on all the weights.",
 ["include/gm.hpp"], "priority-queue merge of sorted component lists, prune threshold, capacity cut")
prop("E06", "Mixture samples all come from the mixture",
 "Drawing any number of samples from a mixture fills every sample with a draw from one of its components, and the number of draws per component matches its weight to within one rounding per component. A single Gaussian's samples are the mean plus a square root of the covariance times unit noise, for every noise value.",
 ["inputs"], "all weights and component counts up to the bound, sample counts up to the bound, all noise values",
 "Tests look at statistics of one large sample with a wide tolerance.",
 ["include/gm.hpp", "include/gaussian.hpp", "include/statistics.hpp"], "per-component allotment of sample columns")
prop("E07", "Particle filter keeps a valid weighted sample",
 "Normalising, correcting, joining and predicting a particle cloud keep weights nonnegative and summing to one (or mark the cloud as void when the total is negligible); corrections scale each weight by its likelihood, and joins keep the heaviest weighted particles of all hypotheses. Mean and covariance are the weighted sample moments, and resampling only repeats existing particles, each about in proportion to its weight.",
 ["inputs"], "all weights and particle positions for the stated small particle counts, all random offsets",
 "Tests run one random cloud and check nothing but the mean.",
 ["include/pf.hpp"], "weight normalisation, systematic resampling, heap merge")
prop("T01", "Joint update computes exact association marginals",
 "When a scan is processed, each target's updated existence probability and association weights equal the exact marginals over all consistent joint associations (each target absent, missed or explained by one report, each report used at most once), given the targets' existence, detection and likelihood values and when the hypothesis limits do not cut. In particular an undetected target's existence becomes r(1-pD)/(1-r pD).",
 ["inputs"], "all existence probabilities, detection probabilities, likelihoods and clutter values for the stated target and report counts",
 "Tests check two or three fixed scenes for plausibility of the result.",
 ["include/cluster.hpp", "include/target.hpp", "include/murty.hpp"], "cost matrix of negative logs, ranked enumeration, accumulated hypothesis weights")
prop("T02", "Association probability mass is conserved",
 "After every update, each existence probability and each report's probability of belonging to no known target lies in zero to one, and for every report the association probabilities over all targets plus that remainder sum to one, whatever the hypothesis limits cut off. When the limits cut, the most likely joint associations are the ones kept, as many as it takes until one falls below the weight limit or the number limit is met, and the update is exact over them. A report with no target near it, or a group for which no hypothesis is possible, has remainder one, and no update ever produces an undefined number.",
 ["inputs", "configurations"], "all existence, detection and likelihood values, extreme ones included, and all hypothesis limits, for the stated target and report counts",
 "Tests look at typical values; loss of mass happens under truncation or extreme values.",
 ["include/cluster.hpp"], "normalisation by the accumulated weight, forwarding of birth probabilities")
prop("T03", "Tracks live exactly while they are viable",
 "After every prediction or update a target remains in the tracker exactly when its existence probability is at least the configured limit and its position covariance norm does not exceed the configured limit; others disappear completely from lists and area queries. Surviving targets keep their identity, and area queries find every survivor at its updated location.",
 ["inputs", "histories", "configurations"], "all existence probabilities, covariances and limits; short histories of predictions and corrections",
 "Tests use fixed scenes with default limits.",
 ["include/lmb.hpp", "include/cluster.hpp", "include/target.hpp", "include/targettree.hpp"], "viability test and re-insertion after update")
prop("T04", "Scan partition separates independent targets and reports",
 "Processing a scan partitions all its reports and all targets in view into groups: two reports share a group exactly when they are linked through chains of targets whose areas meet the reports' areas, each target in view belongs to exactly one group, and targets touched by no report form their own group. The exposed per-group counts of targets, reports and hypotheses describe these groups, and group labels on reports and targets agree.",
 ["inputs"], "all relative positions of the stated number of targets and reports",
 "Tests count groups for one or two scenes.",
 ["include/lmb.hpp", "include/connectedcomponents.hpp"], "R-tree query per report and connected components")
prop("T05", "Connected components are exactly the equivalence classes",
 "Extracting components from any symmetric connection graph returns each node exactly once, with two nodes in the same component exactly when a path of connections joins them. Extraction ends after the last component and reports that nothing is left.",
 ["inputs"], "all graphs up to the stated number of nodes, in any order of insertion",
 "Tests use two fixed graphs.",
 ["include/connectedcomponents.hpp"], "stack-based traversal with edge deletion")
prop("T06", "Births follow the unexplained reports",
 "Each report spawns at most one new target, with existence equal to its share of unexplained probability times the sensor's birth intensity, capped at the configured maximum, exactly when that uncapped value reaches the existence limit. The new target is centred on the report with the report's covariance, zero initial velocity and the configured velocity spread, carries the report's group label and a fresh identity, and nothing is born when the total unexplained probability is below the limit.",
 ["inputs", "configurations"], "all unexplained probabilities, birth intensities and limits for the stated report counts",
 "Tests use one report at default settings.",
 ["include/lmb.hpp", "include/sensors.hpp"], "proportional birth allotment with cap and floor")
prop("T07", "Target counts and summaries describe the tracked set",
 "The expected number of targets is the sum of existence probabilities and the counted number is how many reach the given threshold, over all targets or over exactly those whose area meets a given window. Summaries list each such target once with its mean, covariance, existence and identity.",
 ["inputs", "histories"], "all existence probabilities, thresholds, target positions and windows for the stated number of targets",
 "Tests query one or two fixed scenes.",
 ["include/lmb.hpp", "include/targettree.hpp"], "iteration over list or tree query")
prop("T08", "OSPA score equals its definition",
 "The OSPA score of the tracked set against a truth set equals the p-norm mean over an optimal matching of cut-off distances plus cut-off penalties for the difference in cardinality, for every cut-off and order. It is zero exactly for identical sets, never exceeds the cut-off, and is zero when both sets are empty.",
 ["inputs"], "all positions, cut-offs and the stated orders, for the stated set sizes",
 "Tests compare one or two fixed scenes.",
 ["include/lmb.hpp", "include/target.hpp"], "cost matrix of cut-off distances and an optimal assignment")
prop("T09", "GOSPA score equals its definition",
 "The GOSPA score of the tracked set against a truth set equals the p-th root of the optimal total of cut-off distances to the power p plus half the cut-off power for every missed or false target. It is zero for identical sets and grows with every extra false target far away.",
 ["inputs"], "all positions, cut-offs and the stated orders, for the stated set sizes",
 "Tests compare one or two fixed scenes.",
 ["include/lmb.hpp", "include/target.hpp"], "cost matrix of powered distances and an optimal assignment")
prop("T10", "Asking questions does not change the tracker",
 "Scores, density maps, counts and summaries leave every target's state, existence and indexed location unchanged, so that any sequence of queries gives the same answers and later tracking is unaffected. The density map adds up to the existence mass whose samples fall inside the window over the targets whose area meets the window, each contributing at most its existence.",
 ["inputs", "histories"], "all target states, reference origins, truth sets and windows for the stated number of targets",
 "Tests call each query once and never look at the state afterwards.",
 ["include/lmb.hpp", "include/gm.hpp"], "evaluation in a local frame")
prop("T11", "Sensor field-of-view selection is exact",
 "The targets a sensor selects for update are exactly those whose area overlaps its field of view; any other target whose area no report of the scan meets is left untouched by the scan.",
 ["inputs"], "all field-of-view rectangles and target positions for the stated number of targets",
 "The single test uses one field of view and one target.",
 ["include/sensors.hpp", "include/targettree.hpp", "include/gm.hpp"], "tree query on the enclosing box, then oriented-box test")
prop("T12", "Repeated tracking cycles follow the exact recursion",
 "With hypotheses and components left unpruned, any sequence of predictions and scans leaves every target with the existence, mean and covariance that the exact recursion gives: motion over the elapsed time, a Bayes update over all joint associations of the group, and births from what the reports leave unexplained. Nothing else of the history (earlier scans, other groups, targets born before) has a say.",
 ["inputs", "histories"], "the stated histories, with any value of one quantity at any of their steps",
 "Tests run one or two steps and compare single numbers.",
 ["include/lmb.hpp", "include/cluster.hpp", "include/target.hpp", "include/gm.hpp", "include/gaussian.hpp", "include/models.hpp"], "predict, correct, the update of a cluster, likelihoods and births")
prop("E08", "A density is indexed by an area that covers it",
"Taking a mixture or particle cloud to local coordinates (around its own mean, or a given origin) and back leaves components, particles and weights as they were and refreshes its areas: the axis-aligned area of a mixture is exactly the smallest one that holds every component out to the configured number of standard deviations, the oriented area of a mixture or cloud is the rectangle of its mean and covariance, and the indexed area of a cloud is the smallest around that rectangle, all in degrees around that origin. A new mixture knows its area at once.",
["inputs"], "all positions, weights and covariances of mixtures and clouds of the stated sizes",
"The tests check the box of one or two fixed components.",
["include/gm.hpp", "include/pf.hpp", "include/gaussian.hpp", "include/bbox.hpp"], "update_local_bbox, transform_to_local, transform_to_global, llaabbox, constructors")
prop("E09", "A gridded density adds up to its weight",
"Sampling a density on a set of points adds to each point the weight of every component in the proportion of its density there to the sum over the points, so that each component adds exactly its scaled weight in total (or nothing where its density is negligible at every point), a target its existence times the weights; what the points held before is kept.",
["inputs"], "all weights, scales and previous contents, all positions for small grids",
"One test looks at the values of a single component on one grid.",
["include/gaussian.hpp", "include/gm.hpp", "include/target.hpp"], "sampled_pos_pdf, pos_phd of a target")
prop("G04", "Boxes keep their corners between map and local coordinates",
"Converting a box from local metres to degrees or back converts every corner (of an axis-aligned box: both limits of both axes, which stay in order) with the given origin; converting forth and back restores the box. The local area of a report or target summary is the area of its Gaussian around the local position.",
["inputs"], "all boxes, origins and scales",
"No test converts boxes.",
["include/bbox.hpp", "include/gaussian.hpp"], "llbbox, nebbox, llaabbox, neaabbox")
prop("P01", "Python objects expose and pickle the values they hold",
 "Pickling and unpickling a box, target summary or report restores every value it holds, for all values. Every attribute of the Python classes reads (and where writable, writes) the quantity it is named after, and malformed pickle states are rejected.",
 ["inputs"], "all field values of every picklable class and every exposed attribute",
 "No test goes through the Python layer beyond importing it.",
 ["lmb/lmb.cpp"], "pybind11 attribute table and pickle lambdas")
prop("P02", "The printed form states the values held",
"The printed form of a tracker, target, mixture, component, particle cloud, report, list of reports, group, target summary and box states every quantity once, under its own name and with the value held (scalars at the six digits the stream prints, vectors and matrices in full, row by row), lists every member in order, and is well-formed JSON (only the axis-aligned box has the plain form AABBox[[min0, max0], [min1, max1]]). A target also tells what was done to it last: i for created, u for predicted, c for corrected.",
["inputs"], "all values of every printed quantity, lists of up to three members",
"The tests compare the text of a few constant objects.",
["include/lmb.hpp", "include/target.hpp", "include/gm.hpp", "include/gaussian.hpp", "include/pf.hpp", "include/report.hpp", "include/bbox.hpp", "include/cluster.hpp", "include/constants.hpp"], "repr of every class and operator<<")
prop("R01", "Parallel execution gives the sequential result",
 "Every parallel loop of the tracker (prediction, matching, correction per group, births, particle updates) gives for every interleaving of its iterations and every number of threads the result of running them one after the other, up to the numbering of new targets, rounding of sums and random draws. No two iterations touch the same data without mutual exclusion.",
 ["schedules", "inputs"], "all assignments of iterations to threads and all interleavings at memory-access granularity for the stated loop sizes",
 "Tests run whatever schedule the machine happens to produce on loops of one or two iterations.",
 ["include/lmb.hpp", "include/cluster.hpp", "include/target.hpp", "include/gm.hpp", "include/gaussian.hpp", "include/pf.hpp", "include/omp.hpp", "include/statistics.inc"], "OpenMP parallel loops with named critical sections")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
