"""Which harnesses decide which property, in which tier, with which time budget.
   run(file, 'harness:seconds harness:seconds ...', reach={harness: [labels]}) builds the list."""
FILES = {}
REAL = 'double arithmetic is read as exact real arithmetic; rounding, overflow and the non-finite values other than the infinity literals of the code are outside the claim'
def run(f, hs, reach=None, **o):
    r = []
    for x in hs.split():
        h, t = x.split(':'); q = dict(o)
        if reach and h in reach: q['reach'] = reach[h].split()
        r.append((f, h, float(t), q))
    return r
SPEC = {}
L = {'solve_1x1': 'feasible infeasible', 'solve_2x3': 'feasible infeasible', 'solve_3x3': 'feasible infeasible', 'solve_3x3f': 'feasible', 'solve_many': 'feasible infeasible', 'solve_cols3': 'feasible infeasible'}
SPEC['A01'] = dict(
    quick=run('lap', 'solve_1x1:10 solve_1x2:10 solve_1x3:10 solve_2x2:20 solve_2x3:30 solve_2x4:40 solve_3x3:60 solve_many:30 solve_cols2:20 solve_cols3:30 solve_steep4:60 solve_steep5:60 solve_steep5c:60 solve_steep6:60 solve_steep6b:60 solve_steep7:60', L),
    thorough=run('lap', 'solve_1x1:10 solve_1x2:10 solve_1x3:10 solve_2x2:20 solve_2x3:30 solve_2x4:40 solve_3x3:120 solve_many:30 solve_cols2:20 solve_cols3:30 solve_steep4:60 solve_steep5:60 solve_steep5c:60 solve_steep6:60 solve_steep6b:60 solve_steep7:60 solve_3x4f:400 solve_3x4:300 solve_3x5f:200 solve_4x4f:300', L, samples=20),
    bounds='every cost matrix of size 1x1, 1x2, 1x3, 2x2, 2x3, 2x4, 3x3 with each entry an arbitrary real in [-1e6,1e6] or forbidden (all forbidden patterns); one arbitrary entry among 20 and 33 rows; column-major storage for 2x2 and 2x3; steep matrices 4x4 to 7x7 (long alternating paths: entries grow with row times column) with an arbitrary entry or row; thorough adds 3x4 without forbidden pairs, and within a time limit 3x4 with up to two forbidden, 3x5 and 4x4 without',
    assumptions=[REAL])
def ab(hs): return ' '.join(f'{p}_{x}' for x in hs.split() for p in ['P'])
S = '1x1:10 1x2:10 1x3:10 2x2:20 2x3:60 2x3p:40 3x3a:60 3x3b:60 3x4a:60 3x4b:60 4x4a:60 steep4:60 steep4f:60 steep35:60 steep45:60 steep5:60'
T = S + ' 3x3p:300 2x4p:300 3x3f:300 3x4p:300'
def pre(p, hs): return ' '.join(p + x for x in hs.split())
B = 'every cost matrix of size 1x1, 1x2, 1x3, 2x2, 2x3 with each entry an arbitrary real in [-1e6,1e6] or forbidden (all forbidden patterns); 3x3, 3x4 and 4x4 with one row (resp. one or two entries) arbitrary and the rest from three tables with ties, negative and forbidden entries; steep 4x4, 3x5, 4x5 and 5x5 matrices with an arbitrary entry; all enumerations drawn to exhaustion; thorough adds, within a time limit, 2x4 and 3x3 fully arbitrary nonnegative and 3x4 with up to three forbidden'
SPEC['A02'] = dict(quick=run('lap', pre('order_', S), {'order_2x3': 'first next none'}), thorough=run('lap', pre('order_', T), {'order_2x3': 'first next none'}), bounds=B, assumptions=[REAL])
SPEC['A03'] = dict(quick=run('lap', pre('set_', S), {'set_2x3': 'first next none'}), thorough=run('lap', pre('set_', T), {'set_2x3': 'first next none'}), bounds=B, assumptions=[REAL])
EIG = 'the eigen decomposition of a 2x2 covariance is replaced by its contract (arbitrary rotation angle, arbitrary positive variances and signs of the eigenvectors); sine and cosine are any pair with unit norm'
SPEC['G01'] = dict(quick=run('geo', 'aabb_point:20 aabb_pair:30 aabb_points1:10 aabb_points3:30 aabb_points4:60', {'aabb_point': 'in out', 'aabb_pair': 'meet apart'}),
    bounds='boxes from any two corners with coordinates in [-20000,20000], any query point; pairs of such boxes; point sets of 1, 3 and 4 arbitrary points', assumptions=[REAL])
SPEC['G02'] = dict(quick=run('geo', 'bbox_point:60 bbox_point_any:60 bbox_tight:40 bbox_conv:40 bbox_pair_axis:40 bbox_pair:100', {'bbox_point': 'in out', 'bbox_pair': 'overlap apart'}, samples=3),
    thorough=run('geo', 'bbox_point:60 bbox_point12:200 bbox_point_any:60 bbox_tight:40 bbox_conv:40 bbox_pair_axis:40 bbox_pair:100 bbox_pair_full:300', {'bbox_point': 'in out', 'bbox_pair_full': 'overlap apart'}),
    bounds='rectangles with arbitrary centre and half sides and arbitrary query points for 6 (thorough 12) rational directions, and arbitrary direction and side ratio for a rectangle centred on the origin; pairs of rectangles with arbitrary centres and half sides for 12 (thorough 36) pairs of directions; the verdict within 1e-9 of touching is left open', assumptions=[REAL])
SPEC['G03'] = dict(quick=run('geo', 'gauss_aabb:60 gauss_aabb_cov:60 gauss_bbox:60', {'gauss_aabb': 'done', 'gauss_bbox': 'done'}),
    bounds='every 2x2 covariance with principal variances in [1e-5,1e6] at any angle, mean in [-1000,1000], 0.1 to 10 standard deviations', assumptions=[REAL, EIG])
R1 = {'used_point': 'hit miss', 'used_strip': 'hit miss', 'small_strip': 'hit miss', 'sym_used': 'hit miss', 'used_drain3': 'hit', 'iter_used': 'full', 'clear_again': 'empty full hit', 'load_used': 'full hit'}
SPEC['S01'] = dict(
    quick=run('rtree', 'used_small_rect:20 used_point:20 used_strip:60 used_deep:30 small_point:20 small_strip:20 tiny_strip:20 small_drain:20 used_drain:60 clear_again:20 sym_small:30 sym_used:60 sym_own:30 ops_tiny:20 ops_small:20 ops_used:20 ops_tiny4:30 tiny_drain3:60 used_drain3:100', R1),
    thorough=run('rtree', 'used_small_rect:20 used_point:20 used_strip:60 used_deep:30 small_point:20 small_strip:20 small_deep:100 tiny_strip:20 small_drain:20 used_drain:60 clear_again:20 sym_small:30 sym_small2:600 sym_used:60 sym_rem:60 sym_own:30 ops_tiny:20 ops_small:20 ops_used:20 ops_tiny4:30 tiny_drain3:60 small_drain3:200 used_drain3:200', R1),
    bounds='node capacities 8/4 (as the tracker uses), 4/2 and 3/1; up to 73 entries from five layouts (scattered, clustered, equal, nested, dense), one of up to 9 rectangles at an arbitrary position, up to 3 arbitrary removals, arbitrary sequences of 2 to 4 operations including clearing, draining to any size in 4 orders from any start and refilling; query point or interval arbitrary real, query rectangle arbitrary with up to 4 entries',
    assumptions=[REAL, 'entries are removed with the rectangle they were stored with'])
SPEC['S02'] = dict(
    quick=run('rtree', 'iter_used:20 iter_small:20 iter_tiny:20 iter_drain3:20 iter_used3:30 ops_iter:20 clear_again:20 load_used:30 load_small:30 load_sym:20 load_bad:10 load_deep:30 load_deep_used:30', R1), 
    bounds='as S01 for count and iteration, up to 73 entries; saved and reloaded indexes of up to 73 entries answer an arbitrary interval query in either coordinate; refused files: other capacities, missing',
    assumptions=[REAL, 'the file system works'])
SPEC['T05'] = dict(quick=run('conn', 'none:5 graph1:5 graph3:5 graph4:10 graph5:10 graph5s:10 graph6:30 reuse:5', {'graph5': 'one all some'}), thorough=run('conn', 'none:5 graph1:5 graph3:5 graph4:10 graph5:10 graph5s:10 graph6:30 graph7:200 reuse:5', {'graph5': 'one all some'}),
    bounds='every undirected graph on 1, 3, 4, 5 and 6 (thorough 7) nodes, with and without self connections, connections announced in one list or one by one; one reuse after extraction', assumptions=['connections are announced from both ends, as the tracker does'])
SPEC['K01'] = dict(quick=run('geodesy', 'degrees:10 rotation:10 roundtrip_ned:10 roundtrip_ecef:10 origin:10 distance:10 local_points:10', {'rotation': 'done', 'distance': 'done'}),
    bounds='every latitude, longitude, altitude in [-10 km, 100 km] of the origin, every point within 10 000 km', assumptions=[REAL, 'sine and cosine are real functions with the addition theorems and unit norm'])
SPEC['K02'] = dict(quick=run('geodesy', 'degrees:10 ellipsoid:10 altitude:10 symmetry:10 planar_ne:10 inverse_pole:30 inverse_midw:60 local_table:10', {'ellipsoid': 'done', 'inverse_midw': 'north south', 'inverse_pole': 'north south'}, nlms=300),
    bounds='every latitude, longitude and altitude for the forward conversions; for the inverse: distance from the axis one of 4 values (any below 3000 km near the poles), arbitrary height above the equatorial plane and longitude; planar local-to-global on 8 origins and 9 offsets only', assumptions=[REAL, 'sine and cosine are real functions with the addition theorems and unit norm'])
SPEC['K03'] = dict(quick=run('geodesy', 'degrees:10 undo_low:60 undo_high:60 undo_switch:60 undo_pole:60 undo_local:60', {'undo_low': 'north south equator', 'undo_high': 'north south', 'undo_switch': 'north south', 'undo_pole': 'north south', 'undo_local': 'done'}),
    bounds='every longitude within 179.999 degrees; latitudes on a net of a quarter of a degree (a thirty-second around the latitude where the series changes, down to a thousandth of a degree from the equator and a sixteenth from the poles) in both hemispheres; altitudes -10 km, -500 m, 0, 100 m, 1000 m, 2500 m, 8848 m, 30, 100 and 400 km; through the local frame of any origin for 12 of the latitudes; latitudes and altitudes between the points of the net are not covered', assumptions=[REAL])
FILES['gauss'] = dict(overlay=['flat__cf.hpp', 'noise__statistics.inc'])
FLAT = 'the geodetic map is replaced by a flat one of 64 m per degree; the code that calls it is the real one'
G = {'prune': 'all some none', 'join2': 'all some', 'join4': 'all some', 'detect': 'inside outside part', 'normalize': 'normal void', 'post_mixture': 'done', 'join_big': 'all some'}
SPEC['E01'] = dict(quick=run('gauss', 'post_any:30 post_smaller:30 post_mixture:30', G), bounds='every mean, every symmetric prior covariance of the four-dimensional state and every symmetric report covariance with variances in [1/1024,16384] whose innovation covariance is positive definite, every measured position and mean within 1000 km; mixtures of 1 to 3 components', assumptions=[REAL, FLAT])
SPEC['E02'] = dict(quick=run('gauss', 'like:30 like_cov:30 like_mixture:30 missed:30 detect:60', G), bounds='arbitrary mean, report, detection probability, weight and clutter intensity for 3 pairs of covariances, and arbitrary covariances for 3 offsets; mixtures of up to 3 components; detection fraction for arbitrary field of view and mean with 4 noise levels', assumptions=[REAL, FLAT, 'the exponential and the square root are real functions', 'the fraction of the probability in the field of view is estimated by samples; the noise of the samples is chosen by the harness'])
SPEC['E03'] = dict(quick=run('gauss', 'cv:30 cv_split:30 nm:30 target_predict:30 cv_mean:30', G), bounds='every state and covariance, process noise, survival probability and time scale, intervals up to 1e5 s, splits up to 200 time units', assumptions=[REAL, FLAT])
SPEC['E04'] = dict(quick=run('gauss', 'normalize:30 moments:30 moments_raw:30', G), bounds='mixtures of up to 4 components with any weights in [0,1000]; moments of up to 3 components with any means, weights and symmetric covariances', assumptions=[REAL])
SPEC['E05'] = dict(quick=run('gauss', 'prune:30 plus:30 join2:60 join3:30 join4:60 join_void:5', G), thorough=run('gauss', 'prune:30 plus:30 join2:60 join3:30 join4:60 join_big:300 join_void:5', G), bounds='up to 5 components with any weights in [0,1] and any threshold when pruning; 2 hypotheses of up to 2 (thorough 3) components, 3 and 4 hypotheses of up to 1, any weights, thresholds 0.01, 0.1, 0.25; capacity 3 components', assumptions=[REAL, 'the capacity is a template parameter, instantiated with 3 instead of 200'])
SPEC['E06'] = dict(quick=run('gauss', 'sample_pos:30 sample_lin:30 sample_full:30 allot1:10 allot2:20 allot3:40 allot4:40', G), bounds='mixtures of 1 to 4 components with any weights summing to one, up to 6 samples, any noise; covariances 2x2 with any axes and principal variances in [1e-6,1e4], 4x4 from a table of shapes in three scales or with any one variance', assumptions=[REAL, 'the eigen decomposition is replaced by its contract', 'the noise generator is replaced by arbitrary values'])
FILES['pf'] = dict(overlay=['flat__cf.hpp', 'noise__statistics.inc'])
PR = {'normalize': 'normal void', 'correct': 'void done', 'correct_fov': 'inside part outside void', 'missed': 'void done'}
PQ = 'normalize:20 correct:60 correct_fov:30 missed:20 join1:30 join2:30 join3:60 join4:30 join_void:5 predict:10 moments:20 resample2:20 resample3:30 resample4:30 resample8:60 init:10 init_any:30 init_scales:20'
SPEC['E07'] = dict(quick=run('pf', PQ, PR), thorough=run('pf', PQ + ' join23:300', PR), bounds='clouds of 2 to 8 particles with any weights and positions; joins of 1 to 3 hypotheses of 2 to 4 particles (thorough 2 of 3); corrections with 3 report covariances and any detection probability per particle, and with the position sensor\'s own field of view; new clouds for covariances of three shapes in nine scales or with two arbitrary variances', assumptions=[REAL, FLAT, 'the number of particles is a template parameter, instantiated with 2 to 8', 'the noise generator is replaced by arbitrary values'])
FILES['tree'] = dict(overlay=['flat__cf.hpp', 'noise__statistics.inc'])
TR = {'ops_strip': 'hit miss', 'ops_point': 'hit miss', 'ops_area': 'hit miss', 'moved': 'hit miss', 'placed': 'hit miss', 'many': 'hit miss', 'cycle': 'hit miss'}
TQ = 'ops_strip:60 ops_point:60 ops_area:60 ops_list:60 moved:60 placed:60 many:100 cycle:60'
SPEC['S03'] = dict(quick=run('tree', TQ, TR), thorough=run('tree', TQ + ' ops_strip4:300', TR), bounds='every sequence of 3 operations (create, take out, put back in place or moved, erase, take all out) from an empty store and of 2 from a filled one (4 for the listing); up to 22 targets in whole-population cycles; one target stored or moved anywhere; query point, rectangle or interval arbitrary', assumptions=[REAL, 'targets are put back after having been taken out, and erased after having been taken out, as the tracker does'])
FILES['scan'] = dict(overlay=['flat__cf.hpp', 'noise__statistics.inc'])
FILES['group'] = dict(overlay=['flat__cf.hpp', 'noise__statistics.inc'])
FILES['track'] = dict(overlay=['flat__cf.hpp', 'noise__statistics.inc'])
FILES['cycle'] = dict(overlay=['flat__cf.hpp', 'still__statistics.inc'])
FILES['score'] = dict(overlay=['flat__cf.hpp', 'noise__statistics.inc'])
FILES['py'] = dict(overlay=['flat__cf.hpp', 'noise__statistics.inc'], stubdirs=['pyfake'])

WHAT = 'densities tell the tracker arbitrary likelihoods and detection values; what real densities compute is decided by E01 to E07'
S1 = {'m11': 'some none', 'm22': 'some', 'm22z': 'some none', 'm32': 'some'}
SPEC['T01'] = dict(quick=run('scan', pre('m', '10:20 11:20 11w:20 12:20 13:20 20:20 21:60 21z:20 21r:20 22:20 22r:20 22z:20 22s:30 31:30 32:30'), S1), bounds='scans of up to 3 reports with 1, 2 with 2 or 3 targets; existence values from 0 to 1 (eight of them, and one arbitrary for up to 2 targets and 2 reports), likelihoods up to 1e9 for one target and report, every likelihood and missed-detection value arbitrary in [0.01,100] for up to 2 targets and 1 report, one or two of them arbitrary at a time in larger groups; every pattern of impossible associations for up to 2 targets and 2 reports', assumptions=[REAL, FLAT, WHAT, 'logarithm and exponential are inverse real functions'])
SPEC['T02'] = dict(quick=run('scan', pre('c', '11:20 12:20 21:40 21z:20 22:20 22z:20 32:30') + ' k11:20 k12:20 k21:20 k22:20 k32:30 scaled:20 crowd:30', {'c22': 'done', 'crowd': 'done', 'k11': 'cut all', 'k22': 'cut'}), thorough=run('scan', pre('c', '11:20 12:20 21:40 21z:20 22:20 22s:200 22z:20 32:30') + ' k11:20 k12:20 k21:20 k22:20 k32:30 scaled:20 crowd:30', {'c22': 'done', 'k22': 'cut'}), bounds='as T01 with at most 1 to 20 hypotheses kept and hypothesis weight limits 0, 0.0625, 0.25 and 0.75; likelihoods scaled by 1e-250 and 1e250; one group of 46 targets', assumptions=[REAL, FLAT, WHAT, 'logarithm and exponential are inverse real functions'])

SPEC['T03'] = dict(quick=run('track', 'predict1:20 predict2:20 predict3:20 predict_many:20 moves:30 updates_at:30 correct10:20 correct11:20 correct20:20 correct21:30 fades:20', {'predict2': 'lives dies', 'correct11': 'lives dies', 'moves': 'located', 'updates_at': 'located', 'fades': 'lives dies'}), thorough=run('track', 'predict1:20 predict2:20 predict3:20 predict_many:20 moves:30 updates_at:30 correct10:20 correct11:20 correct20:20 correct21:30 correct32:400 fades:20', {'predict2': 'lives dies', 'correct11': 'lives dies'}), bounds='up to 3 targets (populations of up to 12 with one arbitrary limit), any existence, survival and detection probability, any limits; one or two predictions, one update with up to 1 (thorough 2) reports; locations after a prediction with any velocity and after an update with any report position', assumptions=[REAL, FLAT, 'for updates: ' + WHAT])
SPEC['T04'] = dict(quick=run('group', pre('g', '11:20 12:20 21:20 21p:20 22:20 13:20 32:20 23:20 33:20 44:30 30:10 03:10') + ' again:20', {'g22': 'one all some', 'again': 'done'}), bounds='up to 3 targets and 3 reports (4 and 4 with one of each arbitrary) along a line, arbitrary positions of the reports or the targets or (up to 2 and 2) both, up to 2 and 1 anywhere in the plane; areas of four sizes; two scans in a row', assumptions=[REAL, FLAT, WHAT])
SPEC['T06'] = dict(quick=run('group', 'b_lone:20 b_where:20 b_close:20 b_mixed:20 b_pair:30 b_certain:20 b_twice:20', {'b_lone': 'born none', 'b_pair': 'born none', 'b_where': 'born'}), bounds='up to 3 reports and 2 targets; any birth intensity, cap, existence limit and (one) likelihood; any report position, velocity spread and time', assumptions=[REAL, FLAT, WHAT])
SPEC['T07'] = dict(quick=run('track', 'counts:20 window_any:20 window_state:20 window_many:20 window_moved:20', {'counts': 'some none', 'window_any': 'in out', 'window_moved': 'in out'}), bounds='up to 3 targets with any existence, mean and covariance, any threshold, any window; up to 14 targets with a window of arbitrary position', assumptions=[REAL, FLAT])
SPEC['T10'] = dict(quick=run('track', 'asked1:30 asked2:30 asked3:30 map_one:30 map_spread:30', {'asked1': 'later', 'map_one': 'inside outside', 'map_spread': 'inside outside'}), bounds='every sequence of up to 3 questions of 7 kinds to a tracker of up to 3 targets, on a map whose scale depends on the latitude; one question with any position; maps of up to 2x3 cells of one target anywhere with all samples at one place, or at two arbitrary places', assumptions=[REAL, 'the geodetic map is replaced by a locally flat one whose scale depends on the latitude of the origin', 'the noise generator is replaced by arbitrary values'])
SPEC['T11'] = dict(quick=run('group', 'v_axis:30 v_many:20 v_tilt:30', {'v_axis': 'inside outside', 'v_tilt': 'inside outside'}) + run('track', 'seen_new:60 seen_moved:60 seen_turned:60 seen_mixture:60 seen_all:60', {h: 'inside outside' for h in 'seen_new seen_moved seen_turned seen_mixture seen_all'.split()}), bounds='any axis-aligned rectangles as field of view and area; 8 areas and a field of view of arbitrary position; a field of view at 45 degrees and squares of 3 sizes anywhere; touching is left open; Gaussian and two-component targets whose ellipse lies in 4 directions, new and after a move, and a field of view of arbitrary position in 2 directions', assumptions=[REAL, FLAT, WHAT, 'the area of a target is what its oriented box and its indexed box have in common; for a tilted ellipse the corners of the oriented box lie outside the indexed box, and a view that meets only such a corner is left open'])
SPEC['T12'] = dict(quick=run('cycle', 'alone:100 pair:100 born:100 apart:100 mixed:100', {'alone': 'r pS q done', 'pair': 'pS q done', 'born': 'births r pS q done', 'apart': 'r pS q done', 'mixed': 'births r pS q done'}), bounds='histories of up to 6 predictions and scans of up to 2 Gaussian targets (mixtures of up to 6 components) and 3 reports: alone, sharing reports, in two groups, born from a report; before any one step the existence of a target, or in it the survival, process noise or birth intensity is arbitrary and the history ends with that step; all other quantities of these histories are fixed', assumptions=[REAL, FLAT, 'no limit prunes hypotheses, components or targets', 'agreement within 1e-7 (existence), 1e-6 (means), 1e-4 (second moments)'])

SQ = '00:10 10:10 01:10 11:20 12:20 21:20 22a:20 22:30 33:30 31:20 b11:20 b11o:20 b21o:20 b12o:20 scan:30'
SB = 'up to 3 targets and 3 true positions (every second target a mixture of two components), positions and velocities along the direction (1,2,2,4), all arbitrary for up to 2 and 2, one arbitrary for 3 and 3; any cut-off in [0.5,100] for up to 1 and 1 (and one arbitrary position of 2 and 2), cut-off 25 otherwise; orders 1 to 3; on a map whose scale depends on the latitude of the origin: up to 3 positions of which up to 2 are arbitrary, with any origin given or with the default one; after real scans with two targets and two reports'
ROOT = 'the p-th root is the exact inverse of the p-th power'
SPEC['T08'] = dict(quick=run('score', pre('o', SQ), {'o00': 'empty', 'o11': 'scored', 'o33': 'scored'}), bounds=SB, assumptions=[REAL, FLAT, ROOT])
SPEC['T09'] = dict(quick=run('score', pre('g', SQ), {'g00': 'empty', 'g11': 'scored', 'g33': 'scored'}), bounds=SB, assumptions=[REAL, FLAT, ROOT])
PB = 'bbox:20 bbox_bad:20 aabbox:20 aabbox_bad:10 target:20 target_bad:10 targets:10 report:20 report_bad:10 gaussian:10 params:10 sensor:10 models:10 tracker:10 created:20 methods:20 scans:20'
SPEC['P01'] = dict(quick=run('py', PB, {'bbox': 'restored written', 'aabbox': 'restored written', 'target': 'restored', 'report': 'restored written', 'bbox_bad': 'rejected', 'aabbox_bad': 'rejected', 'target_bad': 'rejected', 'report_bad': 'rejected', 'methods': 'called', 'scans': 'called'}),
    bounds='every exposed attribute and every pickle state of every class, any real values, identity numbers 0, 1, 7, 2^31 and 2^32-1; states of every other size up to two entries more; counts, scores, prediction and one scan through the bound methods', assumptions=[REAL, FLAT, 'pybind11 is replaced by a stand-in that records the real binding table of lmb/lmb.cpp and passes values through unchanged; pybind11\'s own conversions are outside the claim'])

FILES['area'] = dict(overlay=['flat__cf.hpp', 'still__statistics.inc'])
SPEC['E08'] = dict(quick=run('area', 'mix1:30 mix1c:30 mix2w:30 mix2a:30 mix2b:30 mix3:60 made:20 cloud2:30 cloud3n:20 cloud4n:20 cloud4:30 cloud4d:30', {'mix2a': 'covered', 'cloud4': 'covered', 'made': 'covered'}),
    bounds='mixtures of 1 to 3 components, one of them anywhere or of any weight, covariances from three tables or (one component) arbitrary, 1 to 3.5 standard deviations; clouds of 2 to 4 particles with one anywhere or of any weight, or in two symmetric pairs of any size and weight; own and foreign origins', assumptions=[REAL, 'the geodetic map is replaced by a locally flat one whose scale depends on the latitude of the origin', EIG])
SPEC['E09'] = dict(quick=run('area', 'grid_one:30 grid_default:10 grid_any:60 grid_close:30 grid_mixture:30', {'grid_one': 'near far', 'grid_any': 'near far', 'grid_mixture': 'near'}),
    bounds='up to 6 points; any weights, scales and previous contents for known positions; a mean anywhere for up to 4 points and 3 covariances; mixtures of up to 3 components', assumptions=[REAL, 'the exponential is a real function', 'a component whose density on all points adds up to less than 1e-7 adds nothing'])
SPEC['G04'] = dict(quick=run('area', 'frames_box:20 frames_aabox:20 frames_gauss:20', {'frames_box': 'converted', 'frames_aabox': 'converted', 'frames_gauss': 'converted'}),
    bounds='every box of any four corners, every axis-aligned box within 5 km, every origin, any dependence of the scale on the latitude of the origin', assumptions=[REAL, 'the geodetic map is replaced by a locally flat one whose scale depends on the latitude of the origin'])
FILES['text'] = dict(overlay=['flat__cf.hpp', 'still__statistics.inc'])
SPEC['P02'] = dict(quick=run('text', 'gaussian:20 gaussian2:20 mixture:20 summary:20 report:20 scan:20 box:20 aabox:20 cloud:20 group:20 tracker:30', {h: 'read' for h in 'gaussian gaussian2 mixture summary report scan box aabox cloud group tracker'.split()}),
    bounds='every value of every printed quantity; mixtures, clouds, lists of reports, groups and trackers of up to 3 members; trackers after creation, a prediction or an update', assumptions=[REAL, FLAT, 'the decimal digits of one number are the work of the C++ library: a symbolic number is printed as a token that stands for it; scalars are compared at the six digits the library prints'])

OMP = ['-Xclang', '-fopenmp', '-Xclang', '-fopenmp-version=51']
FILES['par'] = dict(overlay=['flat__cf.hpp', 'still__statistics.inc'], symflags=OMP, natflags=OMP + ['-DNS_NATIVE', '-fno-sanitize=address', '-fsanitize=thread', '-O2'], symextra=['omp.cpp'], natextra=['omp.cpp'])
FILES['parng'] = dict(FILES['par'], overlay=['flat__cf.hpp'])
OMPA = 'the OpenMP runtime is replaced by one in which every iteration of a loop of up to 12 is a thread of its own (longer loops: three threads with a share each), which run until they enter a critical section, meet at a barrier or end; the order in which waiting threads enter is an input, and any two accesses to the same data that this order leaves unordered are reported as a data race, so that other interleavings cannot give other results'
SPEC['R01'] = dict(quick=run('par', 'groups:60 mixed:60 joint:60 births:30 births_shared:30 dying:30 predict_cv:30 predict_nm:30 correct_gm1:30 correct_gm2:60 cloud:30 asks:20', {'groups': 'parallel compared', 'predict_cv': 'parallel', 'correct_gm2': 'compared', 'asks': 'asked'}, replay_limit=20) + run('parng', 'draws_match:20 draws_groups:30', {'draws_match': 'parallel', 'draws_groups': 'parallel'}, replay_limit=20, samples=3),
    bounds='up to 3 targets, 3 reports and 3 groups with 1 or 2 components or 4 particles; existence, likelihoods, clutter intensities and birth rates arbitrary; every order in which the iterations enter critical sections', assumptions=[REAL, FLAT, WHAT, OMPA])
NA = {}
