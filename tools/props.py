"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json
import os

I = 'src/pyinterp/core/include/pyinterp/'
L = 'src/pyinterp/core/lib/'
M = 'src/pyinterp/core/module/'
P = 'src/pyinterp/'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    PROPS.append({
        'id': id,
        'title': title,
        'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


prop(
    'C01', 'Axis lookup is an exact nearest / bracketing search',
    'For every axis of at least two strictly monotonic values (regular or irregular, increasing or decreasing) and every '
    'finite coordinate, find_index returns the index of a nearest axis value when the coordinate lies within the axis (within '
    'half a step of the ends at most) and -1 otherwise (or the nearest end when bounded=True), and find_indexes returns the two consecutive indices that bracket the '
    'coordinate, in axis order, or (-1,-1) outside. NaN and infinite coordinates are never located. The values, size, '
    'step, bounds, regularity, ordering, slicing, equality and flip of the axis agree with the values it was built from.',
    ['inputs'],
    'all 1-D strictly monotonic value vectors (regular, irregular, ascending, descending, 2 to hundreds of values, any '
    'magnitude) x all double coordinates incl. on-node, mid-cell, edges, far outside, NaN, +-inf',
    'Tests look up a handful of hand-picked coordinates on a few axes; the lookup is arithmetic on rounding and ordering '
    'whose failures live at ties, edges, descending order and extreme magnitudes.',
    [I + 'detail/axis.hpp', I + 'detail/axis/container.hpp', I + 'axis.hpp', M + 'axis.cpp'],
    [('Regular::find_index rounding to the step', I + 'detail/axis/container.hpp'),
     ('Irregular::find_index binary search', I + 'detail/axis/container.hpp'),
     ('Axis::find_indexes bracketing', I + 'detail/axis.hpp')],
    ['pyinterp.core.Axis / AxisInt64: constructor, find_index, find_indexes, __getitem__, flip, ==, properties'])

prop(
    'C02', 'Longitude axes behave as circles',
    'On an axis declared as a circle whose values cover 360 degrees, every finite longitude is located, lookups depend '
    'only on the longitude modulo 360, the bracketing pair joins the last and first values across the seam, and the '
    'located index is a nearest value in angular distance. Interpolating a grid on such an axis is continuous across '
    'the seam, unchanged when any query longitude is shifted by whole turns, and unchanged when the same '
    'grid is described starting from another meridian (0..360, -180..180) or in decreasing order.',
    ['inputs'],
    'all circular longitude axes (regular, irregular, increasing or decreasing, any origin and resolution) x all '
    'longitudes including the seam cell and several turns away',
    'Tests use one or two global grids and compare stored values away from the seam; rotation and turn invariance is a '
    'relation between runs that no example states.',
    [I + 'detail/axis.hpp', I + 'detail/math.hpp', I + 'bivariate.hpp', I + 'trivariate.hpp', I + 'quadrivariate.hpp'],
    [('Axis::normalize_coordinate / is_circle detection', I + 'detail/axis.hpp'),
     ('normalize_angle of the cell corner', I + 'bivariate.hpp')],
    ['core.Axis(is_circle=True).find_index(es)', 'bivariate, trivariate, quadrivariate, bicubic results'])

prop(
    'C03', 'Temporal and integer axes resolve 64-bit coordinates exactly',
    'Lookups on integer and temporal axes are computed exactly on the 64-bit values: nearest index, bracketing pair and '
    'out-of-axis result agree with integer arithmetic for every unit and magnitude where the values are representable. '
    'A temporal axis keeps its dtype, converts dates or durations of a coarser or finer unit to its own resolution without '
    'shifting them in time, and rejects values of another kind.',
    ['inputs'],
    'all datetime64/timedelta64 units x axes (regular, irregular, both orders) x dates in any unit, including values '
    'near the limits of double precision',
    'Tests use a few dates in one unit; loss of precision, negative steps and unit conversion only show on other '
    'magnitudes, orders and units.',
    [I + 'temporal_axis.hpp', I + 'detail/axis/container.hpp', I + 'detail/axis.hpp', M + 'axis.cpp',
     I + 'dateutils.hpp'],
    [('TemporalAxis::safe_cast', I + 'temporal_axis.hpp'),
     ('integral Regular container', I + 'detail/axis/container.hpp')],
    ['pyinterp.TemporalAxis, core.AxisInt64: find_index, find_indexes, safe_cast, min/max/front/back'])

prop(
    'C04', '2-D interpolation equals its definition at every point',
    'For every 2-D grid (double, float, int8 or uint8 values; increasing or decreasing axes) and every point inside '
    'the axes, bivariate returns the bilinear, nearest or inverse-distance-weighted combination (distances of the '
    'latter two measured on the great circle) of the four corner values of the enclosing cell, to floating-point '
    'accuracy: exact at nodes, within the corner values, and exact on functions the method reproduces. Points whose '
    'enclosing cell holds an undefined value that the method uses yield NaN (nearest uses only the nearest corner).',
    ['inputs'],
    'all grids x all query points x the three methods and their options',
    'Tests compare stored results of one dataset; a wrong corner, weight or NaN rule outside those points passes.',
    [I + 'bivariate.hpp', I + 'detail/math/bivariate.hpp', I + 'detail/math/linear.hpp', I + 'grid.hpp',
     M + 'bivariate.cpp', M + 'bivariate_interpolator.cpp', P + 'interpolator/bivariate.py', P + 'interface.py'],
    [('Bilinear / Nearest / InverseDistanceWeighting::evaluate', I + 'detail/math/bivariate.hpp'),
     ('bivariate worker', I + 'bivariate.hpp')],
    ['pyinterp.bivariate'])

prop(
    'C05', '3-D and 4-D interpolation compose the surface and axis methods',
    'For every 3-D or 4-D grid, with float or temporal third axis, trivariate and quadrivariate return the requested surface '
    'method (bilinear, nearest, inverse distance) evaluated on the two (four) bracketing surfaces, combined by the requested z_method and '
    'u_method (linear or nearest) along the remaining axes. At a node of the third/fourth axis the result is that of the slice, and points '
    'outside any axis are NaN.',
    ['inputs'],
    'all grids, axis orders and units x all query points x the products of surface, z and u methods',
    'Tests sample a few points with one method combination; swapped axes, indices or weights that agree there pass.',
    [I + 'trivariate.hpp', I + 'quadrivariate.hpp', I + 'detail/math/trivariate.hpp', I + 'detail/math/nearest.hpp',
     M + 'trivariate.cpp', M + 'quadrivariate.cpp', P + 'interpolator/trivariate.py',
     P + 'interpolator/quadrivariate.py', P + 'backends/xarray.py'],
    [('trivariate worker', I + 'trivariate.hpp'), ('quadrivariate worker', I + 'quadrivariate.hpp')],
    ['pyinterp.trivariate, pyinterp.quadrivariate, backends.xarray.Grid3D/4D'])

prop(
    'C06', 'Windowed (bicubic, spline) interpolation equals its separable definition',
    'For every grid and fitting model, bicubic interpolation of a point whose window fits in the grid equals fitting '
    'the 1-D model along one direction then the other on the nx x ny half-window around the point: it reproduces '
    'node values, constants and linear functions, agrees on 3-D and 4-D grids with linear interpolation between the '
    'slice results, and does not depend on values outside the window. Undefined values inside the window give '
    'NaN. Where the window leaves the grid, the result is NaN (boundary undef) or that of the window completed with '
    'the value of the edge (expand), the values of the other end (wrap) or the mirrored values (sym), its coordinates '
    'carrying on by the distance between these elements, or the step of the edge if they are not neighbours.',
    ['inputs'],
    'all grids x points x fitting models x half-window sizes x boundary options',
    'Tests compare some stored values for a default window; wrong windows, models or boundaries at other sizes pass.',
    [I + 'detail/math/bicubic.hpp', I + 'detail/math/spline2d.hpp', I + 'detail/math/frame.hpp', I + 'frame.hpp',
     I + 'detail/interpolation/', M + 'bicubic.cpp', P + 'interpolator/bicubic.py'],
    [('frame loading', I + 'frame.hpp'), ('2-D interpolator factory', I + 'detail/interpolation/factory_2d.hpp')],
    ['pyinterp.bicubic'])

prop(
    'C07', '1-D interpolation reproduces data and matches each model',
    'For every strictly increasing abscissa vector, ordinates and points, interpolate1d with each model (linear, '
    'polynomial, cubic spline, periodic spline, Akima, periodic Akima, Steffen) and half-window reproduces the data at the knots, equals '
    'the textbook interpolant of the window around the point, reproduces the functions its model reproduces (constants, straight lines, '
    'low-degree polynomials), and Steffen never overshoots the bracketing values. Points out of the axis are NaN, or raise when bounds_error is set. The derivatives given by the C++ interpolators are those of the '
    'curve they interpolate, and an interpolator may be used again, for other data or points, with the same answers.',
    ['inputs'],
    'all abscissae, ordinates and evaluation points x models x windows x spline boundary conditions',
    'Tests compare a few tabulated points per model; errors at the ends of the window, on irregular knots or for '
    'reused interpolators are not sampled.',
    [I + 'interpolate1d.hpp', I + 'detail/interpolation/akima.hpp', I + 'detail/interpolation/cspline.hpp',
     I + 'detail/interpolation/cspline_periodic.hpp', I + 'detail/interpolation/polynomial.hpp',
     I + 'detail/interpolation/steffen.hpp', I + 'detail/interpolation/linear.hpp', M + 'interpolate1d.cpp'],
    [('Interpolator1D::interpolate_', I + 'detail/interpolation/interpolator_1d.hpp')],
    ['pyinterp.interpolate1d'])

prop(
    'C08', 'Out-of-domain points are flagged, never extrapolated',
    'For every interpolation function (bivariate, trivariate, quadrivariate, bicubic, and the spline models, on any '
    'grid type) with bounds_error=False the result is NaN exactly at the points outside an axis or touching '
    'undefined data and every other element equals what the same point gives on its own; with bounds_error=True a '
    'ValueError is raised if and only if some point lies outside the domain. Mismatched input sizes, unknown '
    'methods and invalid options are rejected with an exception, never with a wrong-size result.',
    ['inputs'],
    'all batches mixing in-domain, edge, out-of-domain, NaN and infinite coordinates, all functions and thread counts',
    'Tests raise on one out-of-range point; position of the offending element in the batch, thread split and each '
    'axis in turn are not covered.',
    [I + 'bivariate.hpp', I + 'trivariate.hpp', I + 'quadrivariate.hpp', M + 'bicubic.cpp', I + 'frame.hpp',
     I + 'detail/broadcast.hpp', P + 'interface.py'],
    [('Grid::index_error and bounds_error branch', I + 'grid.hpp'), ('check_ndarray_shape', I + 'detail/broadcast.hpp')],
    ['results and exceptions of every interpolation function'])

prop(
    'C09', 'Results do not depend on the number of threads',
    'For every function taking num_threads, the result (values, NaN pattern or raised error) is the same for every '
    'num_threads value, including 0 (all CPUs), 1, and more threads than items, whatever the size of the input, '
    'empty inputs included.',
    ['schedules', 'inputs'],
    'all thread counts x input sizes (0, 1, around multiples of the thread count, large) x every threaded function',
    'Tests run one or two thread counts on one size; lost or doubled items at chunk borders and shared scratch state '
    'show only for other splits or interleavings.',
    [I + 'detail/thread.hpp', I + 'bivariate.hpp', I + 'trivariate.hpp', I + 'quadrivariate.hpp', M + 'bicubic.cpp',
     I + 'fill.hpp', I + 'rtree.hpp', I + 'geodetic/rtree.hpp', I + 'geodetic/coordinates.hpp',
     I + 'geodetic/algorithm.hpp'],
    [('detail::dispatch splits [0,size) into chunks', I + 'detail/thread.hpp')],
    ['results for several num_threads'])

prop(
    'C10', 'Multi-threaded computations are free of data races',
    'No computation started with several threads, nor concurrent calls from several Python threads on shared '
    'read-only objects (axes, grids, trees, interpolators, geometries), performs unsynchronised conflicting accesses to shared memory, '
    'including when the workers raise errors.',
    ['schedules', 'inputs'],
    'all interleavings of worker threads on in-domain, out-of-domain and error workloads, and of callers sharing objects',
    'Tests cannot observe a race that happened not to corrupt the result in that run.',
    [I + 'detail/thread.hpp', I + 'bivariate.hpp', I + 'trivariate.hpp', I + 'quadrivariate.hpp', M + 'bicubic.cpp',
     I + 'fill.hpp', I + 'rtree.hpp', I + 'geodetic/rtree.hpp', I + 'geodetic/coordinates.hpp',
     I + 'geodetic/algorithm.hpp', I + 'interpolate1d.hpp'],
    [('each worker writes only its own slice; shared error slot', I + 'detail/thread.hpp')],
    ['ThreadSanitizer reports while driving the Python API'])

prop(
    'C11', 'Grid, axis, interpolation and fill code is memory-safe and defined',
    'No call on axes, grids, 1-D to 4-D interpolators, windowed interpolators and fill functions, with any array '
    'shapes, sizes, strides, dtypes or values the Python API accepts, reads or writes outside its buffers, uses freed '
    'or uninitialised structures, or executes undefined behaviour: it returns or raises a Python exception.',
    ['inputs'],
    'all accepted shapes (tiny, empty, non-contiguous, mismatched), options (window larger than the axis, extreme '
    'parameters) and values (NaN, inf, huge)',
    'Tests use well-formed inputs and cannot see an out-of-bounds access that does not crash.',
    [I + 'detail/axis.hpp', I + 'frame.hpp', I + 'detail/math/', I + 'detail/interpolation/', I + 'fill.hpp',
     M + 'bicubic.cpp', I + 'interpolate1d.hpp', I + 'grid.hpp'],
    [('shape checks before unchecked access', I + 'detail/broadcast.hpp')],
    ['AddressSanitizer / UndefinedBehaviorSanitizer reports'])

prop(
    'C12', 'Geodesy, geohash, tree and statistics code is memory-safe and defined',
    'No call on geohash, geodetic, R-tree, binning, histogram, statistics, period and date functions, with any array '
    'shapes, sizes, strides, dtypes, texts, states or values the Python API accepts, reads or writes outside its buffers, uses '
    'freed or uninitialised structures, or executes undefined behaviour: it returns or raises a Python exception.',
    ['inputs'],
    'all accepted shapes (tiny, empty, non-contiguous, mismatched), texts and options, and values (NaN, inf, huge)',
    'Tests use well-formed inputs and cannot see an out-of-bounds access that does not crash.',
    [L + 'geohash/', L + 'geodetic/', I + 'rtree.hpp', I + 'geodetic/', I + 'binning.hpp', I + 'histogram2d.hpp',
     I + 'streaming_histogram.hpp', I + 'descriptive_statistics.hpp', I + 'period.hpp', I + 'dateutils.hpp',
     M + 'dateutils.cpp'],
    [('shape checks before unchecked access', I + 'detail/broadcast.hpp')],
    ['AddressSanitizer / UndefinedBehaviorSanitizer reports'])

prop(
    'C13', 'Geohash encoding and decoding are inverse and nested',
    'For every position and precision (integer codes of 1 to 64 bits, texts of 1 to 12 characters), encoding gives the code '
    'of the unique cell that contains the position (longitudes taken modulo 360), decoding gives the cell centre (or '
    'its rounded value inside the cell) and re-encoding that centre gives the same code; a lower-precision code of the '
    'same point is a prefix of the higher one. The text form, the integer form, the GeoHash class, the vectorised '
    'functions and transform agree, and invalid characters or precisions are rejected.',
    ['inputs'],
    'all longitudes and latitudes including cell borders, poles and antimeridian x all precisions x all codes',
    'Tests compare a table of codes; borders, poles, wrap-around and other precisions are not in it.',
    [I + 'geohash/', L + 'geohash/', I + 'geohash.hpp', M + 'geohash/', M + 'geohash.cpp', P + '_geohash.py',
     P + 'geohash/'],
    [('bit interleaving', L + 'geohash/int64.cpp'), ('base32 alphabet', L + 'geohash/base32.cpp')],
    ['core.geohash.*, core.geohash.int64.*, pyinterp.GeoHash, pyinterp.geohash'])

prop(
    'C14', 'Geohash areas tile, neighbour and cover the sphere',
    'The bounding box of a code is the set of positions that encode to it, boxes of one precision tile the globe, and neighbors returns the '
    'eight distinct adjacent cells in the documented order (across the antimeridian too, away from the poles). bounding_boxes of a box, '
    'polygon or the globe lists, without duplicates, every code whose cell meets the region and no code away '
    'from it; grid properties, areas and where give indices and codes consistent with those cells, and the arrays of GeoHash.grid and to_xarray put each '
    'code on the coordinates of its cell, in degrees_east for longitudes and degrees_north for latitudes.',
    ['inputs'],
    'all codes and precisions x all boxes (including degenerate and antimeridian-adjacent) and polygons',
    'Tests list the codes of a few boxes; a missing edge row or a duplicated cell on other boxes passes.',
    [L + 'geohash/int64.cpp', L + 'geohash/string.cpp', M + 'geohash/string.cpp', M + 'geohash/int64.cpp',
     M + 'geohash.cpp', P + 'geohash/converter.py'],
    [('grid_properties / bounding_boxes enumeration', L + 'geohash/string.cpp')],
    ['geohash.bounding_box(es), GeoHash.neighbors/bounding_box, geohash.where, geohash.area'])

prop(
    'C15', 'Coordinate transforms and spheroid quantities are consistent',
    'For every spheroid and position, lla_to_ecef gives the closed-form Cartesian coordinates and ecef_to_lla inverts '
    'it to within sub-millimetre accuracy for altitudes used in practice, transform between two systems agrees with the composition '
    'of both, and normalize_longitudes maps every finite longitude into [min, min+360) differing by whole turns. '
    'Spheroid quantities (axes, eccentricities, radii, curvature) satisfy their defining identities. The functions of angles in '
    'degrees behind them are accurate everywhere and exact at the multiples of a right angle.',
    ['inputs'],
    'all spheroids, longitudes, latitudes (poles, equator, antimeridian) and altitudes from below the surface to orbit',
    'Tests convert a few points with one ellipsoid.',
    [I + 'detail/geodetic/coordinates.hpp', I + 'detail/geodetic/spheroid.hpp', I + 'geodetic/coordinates.hpp',
     I + 'geodetic/spheroid.hpp', I + 'detail/math.hpp', M + 'geodetic.cpp', P + 'geodetic/__init__.py'],
    [('closed-form inverse', I + 'detail/geodetic/coordinates.hpp'), ('normalize_angle', I + 'detail/math.hpp')],
    ['geodetic.Coordinates, geodetic.Spheroid, geodetic.normalize_longitudes'])

prop(
    'C16', 'Boxes and polygons answer containment and set queries correctly',
    'For every box, polygon (with holes) and multipolygon, the scalar and vectorised covered_by agree with each other '
    'and with the geometry, whose sides are geodesics (inside or on the border true, outside or in a hole false), for '
    'any thread count, and envelope, centroid, intersects, disjoint, touches, union, intersection, difference, area, '
    'distance and perimeter agree with point sampling, geodesic computations and one another. GeoJSON and pickle '
    'forms describe the same geometry, and so does WKT within its six significant digits.',
    ['inputs'],
    'all boxes and simple polygons (random stars, holes, shared borders) x all points, clear of numerically ambiguous borders',
    'Tests use a couple of fixed polygons and points.',
    [I + 'geodetic/box.hpp', I + 'geodetic/polygon.hpp', I + 'geodetic/multipolygon.hpp', L + 'geodetic/box.cpp',
     L + 'geodetic/polygon.cpp', L + 'geodetic/multipolygon.cpp', I + 'geodetic/algorithm.hpp', M + 'geodetic.cpp'],
    [('covered_by dispatch', I + 'geodetic/algorithm.hpp')],
    ['geodetic.Box, Polygon, MultiPolygon'])

prop(
    'C17', 'Distances, line strings and crossovers are geometrically correct',
    'coordinate_distances, Point.distance and LineString.curvilinear_distance give the geodesic distance of the chosen strategy and spheroid: '
    'symmetric, zero for equal points, element-wise equal to the scalar form, '
    'cumulative along a line, and Andoyer, Thomas and Vincenty agree within their stated accuracy. '
    'A crossover is found exactly when the two tracks cross, lies on both, and the indexes returned are the nearest vertices.',
    ['inputs'],
    'all pairs of points (short, long, antimeridian), strategies, spheroids; all pairs of tracks crossing or not, '
    'including across the antimeridian',
    'Tests measure a few distances and one crossover.',
    [I + 'geodetic/algorithm.hpp', I + 'geodetic/line_string.hpp', L + 'geodetic/line_string.cpp',
     I + 'geodetic/crossover.hpp', L + 'geodetic/crossover.cpp', I + 'detail/geometry/crossover.hpp',
     I + 'detail/geometry/line_string.hpp', I + 'geodetic/point.hpp', L + 'geodetic/point.cpp'],
    [('Crossover::search / nearest', L + 'geodetic/crossover.cpp')],
    ['geodetic.coordinate_distances, LineString, Crossover, calculate_crossover(_list)'])

prop(
    'C18', 'R-tree queries return the exact nearest neighbours',
    'For every set of points packed or inserted in any order into a 3-D RTree (longitude, latitude, altitude on a '
    'spheroid through ECEF, or Cartesian), query returns the k nearest stored points sorted by distance with their '
    'values and true distances, whatever k, and pads the missing ones with undefined values; with within, only the '
    'points surrounded by their neighbours (the box of the neighbours contains them) are answered. value returns in addition only '
    'those within the radius (limit included). len, bounds, clear '
    'and bool describe the stored points, and insertion after packing loses none.',
    ['inputs', 'histories'],
    'all point sets (duplicates, collinear, poles, antimeridian), insert/packing histories, query points, k and options',
    'Tests query one dataset; equality with brute force on arbitrary sets and histories is a universal statement.',
    [I + 'rtree.hpp', I + 'detail/geometry/rtree.hpp', M + 'rtree.cpp', P + 'rtree.py'],
    [('boost rtree nearest query', I + 'detail/geometry/rtree.hpp')],
    ['pyinterp.RTree.query/packing/insert/bounds/len'])

prop(
    'C19', 'Scattered-data interpolators equal their definition on the neighbours',
    'For every RTree, inverse_distance_weighting, radial_basis_function, window_function and universal_kriging use '
    'exactly the k nearest points (within the radius, limit included, and only when surrounded if within is set) and return the '
    'documented weighting of their values with the number of points used: exact at data points for the exact methods, '
    'constants reproduced and results within the data range for the positive-weight methods, NaN with zero neighbours '
    'when nothing qualifies. The window functions have their documented values, and are null beyond the radius.',
    ['inputs'],
    'all data sets, query points, k, radii, powers, kernels, windows and covariances',
    'Tests compare stored results for one dataset and setting each.',
    [I + 'rtree.hpp', I + 'detail/geometry/rtree.hpp', I + 'detail/math/radial_basis_functions.hpp',
     I + 'detail/math/window_functions.hpp', I + 'detail/math/kriging.hpp', M + 'rtree.cpp', P + 'rtree.py'],
    [('RTree::inverse_distance_weighting / radial_basis_function / window_function / universal_kriging',
      I + 'rtree.hpp')],
    ['pyinterp.RTree interpolation methods'])

prop(
    'C20', 'The geodetic R-tree measures on the sphere and agrees with brute force',
    'For every set of longitude/latitude points, geodetic.RTree query returns the k nearest by geodesic distance in '
    'ascending order with their values and distances in metres, and its inverse distance, radial basis and window '
    'interpolators are the documented weighting of those neighbours with the count used. Packing replaces the points, '
    'inserting adds to them, and nothing stored is lost.',
    ['inputs', 'histories'],
    'all point sets (poles, antimeridian, duplicates) x histories x queries and options',
    'Tests query one dataset at fixed points.',
    [I + 'geodetic/rtree.hpp', L + 'geodetic/rtree.cpp', M + 'geodetic.cpp', P + 'geodetic/__init__.py'],
    [('spherical-equatorial boost rtree', I + 'geodetic/rtree.hpp')],
    ['pyinterp.geodetic.RTree'])

prop(
    'C21', 'Binning conserves samples and equals per-bin statistics',
    'For every axis pair and sample set, pushing into Binning2D (nearest) puts each defined sample in exactly one '
    'bin, the nearest (the edge ones beyond the axes; Binning1D leaves the samples out of its range), so every '
    'statistic equals the batch statistic of that bin, and linear binning distributes each sample inside the axes to '
    'the four surrounding bins with weights that sum to one. The result does not depend on how the samples are split '
    'into pushes or merged with +, and clear empties every bin.',
    ['inputs', 'histories'],
    'all axes (circular included), samples (NaN, out of range, on borders), weights, push splits and merges',
    'Tests push one dataset and compare stored maps.',
    [I + 'binning.hpp', I + 'detail/math/binning.hpp', I + 'detail/math/descriptive_statistics.hpp',
     M + 'binning.cpp', P + 'binning.py'],
    [('push_nearest / push_linear', I + 'binning.hpp'), ('accumulator merge', I + 'detail/math/descriptive_statistics.hpp')],
    ['pyinterp.Binning1D, pyinterp.Binning2D'])

prop(
    'C22', 'Streaming histograms conserve weight, order and range',
    'For every stream of values and positive weights, a StreamingHistogram (and each cell of Histogram2D) keeps at '
    'most bin_count bins in increasing order whose weights sum to the total pushed, with exact count, minimum and '
    'maximum, mean within rounding, and quantiles interpolated in the cumulative weights of the bins, monotonic in q '
    'and inside the range; with no more distinct values than bins the statistics are exact. Merging histograms gives '
    'the same totals as pushing everything into one.',
    ['inputs', 'histories'],
    'all value/weight streams (negative, duplicates, sorted, NaN), bin counts, axes, merge orders',
    'Tests push one random stream; signs, duplicates, bin limits and merges with empty parts are not covered.',
    [I + 'detail/math/streaming_histogram.hpp', I + 'streaming_histogram.hpp', I + 'histogram2d.hpp',
     M + 'streaming_histogram.cpp', M + 'histogram2d.cpp', P + 'statistics/streaming_histogram.py', P + 'histogram2d.py'],
    [('update_bins / trim / merge', I + 'detail/math/streaming_histogram.hpp')],
    ['pyinterp.StreamingHistogram, pyinterp.Histogram2D'])

prop(
    'C23', 'Descriptive statistics equal the batch definition however they are accumulated',
    'For every array, non-negative weights and reduction axes, count, sum, sum_of_weights, min, max, mean, variance, '
    'skewness and kurtosis equal the (weighted) batch definitions over the defined values, per output cell (min and '
    'max being those of the weighted values). Splitting the data into parts, in any order, empty or all-undefined '
    'parts included, and merging with + or += gives the same statistics.',
    ['inputs', 'histories'],
    'all shapes, axes subsets, dtypes, NaN patterns, weights, ddof, and partitions into merges',
    'Tests compare a few arrays with numpy; merges with empty cells, other axis orders or offsets are not covered.',
    [I + 'detail/math/descriptive_statistics.hpp', I + 'descriptive_statistics.hpp', I + 'detail/isviewstream.hpp',
     M + 'descriptive_statistics.cpp', P + 'statistics/descriptive_descriptive.py'],
    [('online moments and merge', I + 'detail/math/descriptive_statistics.hpp'),
     ('axis to output-cell mapping', I + 'descriptive_statistics.hpp')],
    ['pyinterp.DescriptiveStatistics'])

prop(
    'C24', 'Grid filling only changes what it must and converges to its definition',
    'loess returns, at each cell selected by value_type, the tri-cube weighted mean of the defined values in the nx, '
    'ny window (wrapping on circular axes, mirrored at the other edges), and the original value elsewhere or when no '
    'neighbour is defined, for 2-D, 3-D and 4-D grids alike. gauss_seidel keeps every defined value and, once '
    'converged, leaves each filled cell equal to the average of its four neighbours within the tolerance, inside the '
    'range of the known values.',
    ['inputs'],
    'all grids and masks (none, all, borders, isolated), window sizes, value types, first guesses, thread counts',
    'Tests only check that no NaN remain, or a stored map.',
    [I + 'fill.hpp', M + 'fill.cpp', P + 'fill.py'],
    [('loess tri-cube window', I + 'fill.hpp'), ('red-black Gauss-Seidel sweep', I + 'fill.hpp')],
    ['pyinterp.fill.loess, pyinterp.fill.gauss_seidel'])

prop(
    'C25', 'Gap filling of vectors and matrices interpolates between defined neighbours',
    'fill.vector and fill.matrix keep every defined element and replace each undefined element by linear '
    'interpolation between its neighbouring defined elements, or extrapolation with the mean slope of the defined '
    'ones beyond the ends (rows first, then columns, for matrices), for floating point, integer and datetime data and '
    'any fill value. Lines of fewer than two defined values are left as they are.',
    ['inputs'],
    'all vectors and matrices, gap patterns, dtypes and fill values',
    'Tests use one small pattern per dtype.',
    [I + 'fill.hpp', M + 'fill.cpp', P + 'fill.py'],
    [('fill_line', I + 'fill.hpp')],
    ['pyinterp.fill.vector, pyinterp.fill.matrix'])

prop(
    'C26', 'Periods obey interval algebra',
    'Period and PeriodList operations (contains, intersects, intersection, merge, is_adjacent, is_before/after, '
    'within, filter, join_adjacent_periods, merge of lists, belong_to_a_period, is_it_close, cross_a_period, sorting '
    'checks) agree with the set of instants they denote, for every resolution, operands of other resolutions being '
    'converted to that of the object, and lists of any order, empty ones included.',
    ['inputs', 'histories'],
    'all periods, period lists, dates and time units',
    'Tests enumerate a few relative positions in one unit.',
    [I + 'period.hpp', M + 'period.cpp', P + 'period.py'],
    [('closed-interval integer algebra', I + 'period.hpp')],
    ['pyinterp.period.Period, pyinterp.period.PeriodList'])

prop(
    'C27', 'Date utilities agree with the proleptic Gregorian calendar',
    'For every datetime64 array in units from seconds to attoseconds (dates before 1970 included), date, time, weekday, isocalendar, '
    'timedelta_since_january and datetime give the calendar fields of the same instant, element by element, for '
    'any array layout, and the textual form of a date matches its value and unit.',
    ['inputs'],
    'all 64-bit dates x units x array layouts',
    'Tests convert a random sample around today in a few units.',
    [I + 'dateutils.hpp', M + 'dateutils.cpp'],
    [('civil-from-days arithmetic', I + 'dateutils.hpp')],
    ['pyinterp.dateutils.*'])

prop(
    'C28', 'Grids keep their values and axes aligned',
    'For every 2-D to 4-D grid, the constructor checks that the array shape matches the axes, exposes the same values '
    'and axes, and with increasing_axes turns decreasing axes and data over together so that every (coordinates, '
    "value) pair is preserved; the copy mode leaves the caller's array and axes untouched and the inplace mode alters "
    'them. Building from a labelled array (xarray backend) in any dimension order finds the longitude, latitude and '
    'time axes and gives the same interpolated values.',
    ['inputs'],
    'all shapes, dtypes, axis orders, memory layouts and dimension orders',
    'Tests flip one or two grids.',
    [I + 'grid.hpp', M + 'grid.cpp', P + 'grid.py', P + 'backends/xarray.py', P + 'interface.py'],
    [('increasing_axes flips', P + 'grid.py'), ('dims identification', P + 'backends/xarray.py')],
    ['pyinterp.Grid2D/3D/4D, pyinterp.backends.xarray'])

prop(
    'C29', 'Orbit, pass and swath products stay on the ground track',
    'For any input ephemeris of at least three orbits, the calculated orbit follows it (positions, monotonic time and '
    'along-track distance), passes partition the cycle, cycle/pass number encoding and decoding are inverse, '
    'iteration yields consecutive passes in date order, and the equator crossing lies on the pass. Swath pixels lie '
    'at their declared signed across-track distance from the nadir, perpendicular to the track, symmetric left and '
    'right.',
    ['inputs'],
    'all circular-orbit ephemerides (inclination, height, sampling), pass numbers, swath geometries',
    'Tests run one mission with one setting and check shapes.',
    [P + 'orbit.py', I + 'detail/math/orbit.hpp', I + 'geodetic/swath.hpp', M + 'geodetic.cpp'],
    [('interpolate / calculate_pass / calculate_swath', P + 'orbit.py'), ('swath geometry', I + 'geodetic/swath.hpp')],
    ['pyinterp.calculate_orbit, calculate_pass, calculate_swath, Orbit'])

prop(
    'C30', 'Objects are values: pickling and copying preserve them, operators do not alias',
    'Every picklable object (axes, grids, trees, geometries, orbits, binnings, histograms, statistics, periods, '
    'geohashes) unpickles to an object that is equal and gives identical results to every query, at any moment of its '
    'life (empty, partially filled), and goes on like its source. Deep copies and unpickled objects are independent '
    'of their source, binary + leaves both operands unchanged, and += alters its left operand only.',
    ['inputs', 'histories'],
    'all object states reachable through the public API x all classes',
    'Tests pickle one state per class and rarely mutate the copy.',
    [I + 'axis.hpp', I + 'grid.hpp', I + 'rtree.hpp', I + 'geodetic/', I + 'binning.hpp', I + 'histogram2d.hpp',
     I + 'descriptive_statistics.hpp', I + 'streaming_histogram.hpp', M, P],
    [('getstate/setstate pairs', M)],
    ['pickle.loads(pickle.dumps(x)), copy.copy(x), a + b for every public class'])

prop(
    'C31', 'Calls change only what they say, and refused calls change nothing',
    'No call alters the arrays or objects it is given, except the object whose method is documented to change it (push, '
    'insert, packing, append, merge, flip in place, clear, resize, +=) and the array a function is asked to work on in place '
    '(core gauss_seidel, vector and matrix filling, normalize_longitudes). A call that raises leaves every argument and its '
    'own object exactly as they were, and the object still usable. The same call on the same arguments gives the same answer, '
    'whatever was called before.',
    ['inputs', 'histories', 'faults'],
    'all functions and methods of the extension and of the Python layer x all accepted and refused arguments x any history',
    'Tests look at results, hardly ever at the arguments afterwards, nor at an object once a call has failed.',
    [M, I + 'rtree.hpp', I + 'geodetic/', I + 'binning.hpp', I + 'histogram2d.hpp', I + 'descriptive_statistics.hpp',
     I + 'streaming_histogram.hpp', I + 'fill.hpp', L + 'geodetic/', P],
    [('argument checks before any change', I + 'detail/broadcast.hpp'), ('bindings', M)],
    ['bytes of the arrays and states of the objects before and after each call; answers of repeated calls'])

prop(
    'C32', 'Calls release the memory, references and threads they acquire',
    'Once the results of a call are dropped, and whether it succeeded or raised, no reference to its arguments is kept '
    '(beyond the objects documented to hold them), no object or memory allocated by the call is left, and no thread started by it is '
    'running. Creating, altering, questioning, duplicating and destroying objects any number of times takes no more memory '
    'than doing it once.',
    ['inputs', 'histories', 'faults'],
    'all functions and methods of the extension and of the Python layer x accepted and refused arguments x thread counts',
    'Tests run each call once: what a call leaves behind shows only in long-lived processes.',
    [M, I + 'detail/thread.hpp', I + 'geohash/string.hpp', I + 'detail/geometry/rtree.hpp', I + 'detail/math/frame.hpp',
     I + 'temporal_axis.hpp', I + 'grid.hpp', P],
    [('capsule that owns the buffer of texts', I + 'geohash/string.hpp'), ('threads joined', I + 'detail/thread.hpp')],
    ['sys.getrefcount, sys.getallocatedblocks, mallinfo2 and /proc/self/task around repeated calls'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
    with open(out, 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    print(len(PROPS), 'properties')
