"""single source of properties.jsonl and MANIFEST.json (run: python3-vt tools/props.py)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PT, LN, PG, GR, HT = ('geometry/SR_point.py', 'geometry/SR_line.py', 'geometry/SR_polygon.py',
                      'geometry/SR_polygon_group.py', 'SR_Vessel/SR_hauptteile.py')
SAMPLE = 'The tests evaluate a handful of hand-picked coordinates; '

P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why, anchors=dict(
                      files=list(files), mechanism=[dict(name=a, where=b) for a, b in mech],
                      **(dict(state=[dict(name=a, meaning=b, where=c) for a, b, c in state]) if state else {}),
                      **(dict(observe_at=list(observe)) if observe else {})), _na=na))


prop('G01', 'Points: construction, equality, arithmetic, distance',
     'A point keeps the coordinates it was given, rounded to 8 decimals, and rebuilding it from its own coordinates gives an equal '
     'point with the same hash. Two points of the same kind are equal exactly if both coordinates differ by less than 1e-5, '
     'symmetrically; points of different kinds never are. Sums and differences are coordinate-wise and leave the operands '
     'unchanged; the distance is the Euclidean one, symmetric, zero for a point and itself.',
     'all real coordinates, plain and tagged points',
     SAMPLE + 'equality near its tolerance and rounding are quantified over all coordinates.', [PT],
     [('rounding on construction', PT + ' Point._set_coords'), ('tolerance comparison', PT + ' Point.__eq__'),
      ('distance', PT + ' distance')])
prop('G02', 'Validity of points and segments follows the current state',
     'A point is valid exactly if it currently has two numeric coordinates; a segment is valid exactly if both its current end points are '
     'valid. This holds after every sequence of construction, emptying, coordinate changes and end point replacement, and whatever was '
     'asked before; operations on invalid points and segments are refused.',
     'all sequences of state changes and validity queries on a point / segment',
     'Tests ask once on a fresh object; the property is about every history of changes and queries (a cached answer passes them).',
     [PT, LN], [('validity', PT + ' Point.isvalid'), ('validity', LN + ' LineSegment.isvalid')], over=('histories', 'inputs'),
     state=[('coordinates', 'current coordinates or empty', PT + ' Point._coords')])
prop('G03', 'Segments: length, vectors, products, reversal, equality',
     'Length, direction vector, unit vector, bounding box, dot and cross product of segments are those of the end points; cross is '
     'antisymmetric, dot symmetric, reversal swaps the end points, keeps the point objects and is an involution. Two segments of the same '
     'class with identical coordinates are equal and hash alike, loosely equal also if reversed; segments of different classes are not.',
     'all end points (including coincident ones), all three segment classes',
     SAMPLE + 'the algebraic laws hold for all of them.', [LN],
     [('projections', LN + ' LineSegment.delta_x/delta_y/norm'), ('products', LN + ' LineSegment.crossproduct/dotproduct'),
      ('equality', LN + ' LineSegment.__eq__/loose_equal/__hash__')])
prop('G04', 'Side of a line: left, right, on, distance',
     'A point is right of / left of a directed segment exactly as the sign of the orientation of the triple says, and on its line exactly '
     'if the orientation is smaller than the tolerance 1e-8; exactly one of the three holds away from the tolerance and reversing the '
     'segment exchanges left and right. The distance of a point from the line is |orientation| / length.',
     'all segments with distinct end points, all points', SAMPLE + 'the trichotomy must hold for every triple.', [LN],
     [('orientation tests', LN + ' LineSegment.is_point_to_right/is_point_to_left/is_point_on_line'),
      ('distance', LN + ' LineSegment.line_point_distance')])
prop('G05', 'Angles between segments and directions',
     'The angle between two segments is defined for every pair of non-degenerate segments, lies in [0, 180], is symmetric, and its cosine '
     'is the normalised dot product (0 for same, 180 for opposite directions). The direction of a segment is its polar angle in '
     '[0, 360); two segments are of opposite direction exactly if they are parallel and their dot product is negative.',
     'all pairs of non-degenerate segments, including (anti)parallel ones',
     'Rounding pushes the cosine out of [-1, 1] only for particular lengths, which the sampled inputs miss.', [LN],
     [('acos of a clamped cosine', LN + ' LineSegment.angle_between_lines'), ('atan2', LN + ' LineSegment.direction'),
      ('opposite', LN + ' LineSegment.opposite_direction')])
prop('G06', 'Intersection of lines and segments',
     'Two segments have an intersection point of their lines exactly if they are not parallel, and it lies on both lines. They cross '
     '"on the segment" exactly if they share no end point and that point lies within the extent of both; they touch exactly if they have '
     'an end point in common, are continuous if an end meets a start, and cross on an end point if the crossing is an end point of one of them.',
     'all pairs of segments with clearly separated or identical end points', SAMPLE + 'in particular not nearly parallel or axis-parallel ones.',
     [LN], [('determinant solution', LN + ' LineSegment.intersection_point'), ('extent test', LN + ' LineSegment.is_internal_point'),
            ('crossing', LN + ' LineSegment.intersection_on_segment/intersection_on_endpoint'), ('touch', LN + ' LineSegment.touch/continuous')])
prop('G07', 'Overlap and common part of segments',
     'For two segments on one line the overlap is exactly the intersection of the two intervals: nothing, one point, or the common segment, '
     'in whatever order and orientation the end points are given. Segments that are not on one line do not overlap; their common part is '
     'the crossing point if they cross or touch and nothing otherwise.',
     'all interval configurations on all lines, all orientations; all non-collinear pairs',
     'There are dozens of interval configurations times orientations times axes; tests sample some on a few lines.', [LN],
     [('overlap', LN + ' LineSegment.overlap'), ('common part', LN + ' LineSegment.common_part/common_part_type')])
prop('G08', 'Dividing a segment',
     'The point at ratio r of a segment lies at start + r (end - start) for r in [0, 1], is the end point itself at 0 and 1, and other '
     'ratios are refused. Dividing into n parts gives n consecutive segments of equal length from start to end that share their '
     'division points; adding a point splits a segment exactly if the point lies within its extent.',
     'all segments, ratios, part counts and points', SAMPLE + 'other part counts and ratios are not reached.', [LN],
     [('ratio', LN + ' point_on_line_at_ratio'), ('division', LN + ' divide_line'), ('insertion', LN + ' add_point_on_line')])
prop('G09', 'Moving, mirroring and rotating polylines',
     'Moving, mirroring or rotating a polyline (about the origin or about a point) transforms every vertex exactly once, whatever segments '
     'share that vertex and whether they share the point object or hold equal points of their own. The lines keep their number, order, '
     'orientation and class, and joined lines stay joined.',
     'all vertex coordinates, displacements, axes and angles; every way segments can share points',
     SAMPLE + 'a shared point that is moved twice shows up only for particular sharing patterns.', [PG],
     [('one update per vertex', PG + ' PolygonLine.move/mirror_vertical/rotate_about_origin/rotate_about_xy')])
prop('G10', 'Purging and the vertex list',
     'Purging makes the segments of a polyline share one point object per vertex and changes no coordinate; doing it again changes nothing. '
     'The vertex list holds every vertex exactly once, sorted, the list of all end points every end of every segment; the midpoint is the '
     'average of the vertices.',
     'all vertex coordinates and every pattern of coincident vertices', 'Merging depends on which of the vertices coincide: tests sample a few '
     'closed polygons.', [PG], [('merging', PG + ' PolygonLine.purge'), ('vertices', PG + ' PolygonLine.point_set/all_points/midpoint')])
prop('G11', 'Open, closed, continuous; closing and appending',
     'A polyline is continuous exactly if every segment starts where the previous one ends (the breaks are listed), closed if in addition the '
     'last end is the first start. Closing adds exactly the missing segment or nothing, on the polyline or on a copy that leaves it alone; '
     'appending a point at the end or the beginning adds one segment from or to it and keeps continuity and a purged polyline purged. The '
     'segment after a given one in a closed polyline is one that starts where that one ends; if there is none, or the polyline is open, it is refused.',
     'all vertex coordinates, all patterns of coincident vertices, purged or not', SAMPLE + 'breaks between reversed or only touching segments '
     'are not among them.', [PG], [('continuity', PG + ' PolygonLine.iscontinuous/discontinuity/isclosed'),
                                  ('closing', PG + ' PolygonLine.close/closed_copy'), ('appending', PG + ' PolygonLine.append_point_at_end/append_point_at_beginning')],
     over=('inputs', 'histories'))
prop('G12', 'Ordering segments into a ring',
     'Ordering segments that form one ring succeeds for every order and orientation they are given in, keeps exactly those segments (some '
     'reversed) and leaves the polyline continuous and closed, starting at the vertex nearest to the origin. Segments that are not one '
     'ring (open chain, ring with a tail, two rings) are refused, and none of them is lost. An ordered copy is what ordering a copy '
     'leaves, and the polyline itself stays as it is.',
     'all rings of segments in every order and orientation', 'There are n! 2^n presentations of one ring; tests sample some.', [PG],
     [('ordering', PG + ' PolygonLine.order')])
prop('G13', 'Bounding box of a polyline',
     'The bounding box of a polyline is the tightest: its limits are the smallest and the largest x and y of the end points of its segments, '
     'however far from the origin they are.',
     'all polylines', SAMPLE + 'very large or all-negative coordinates are not reached.', [PG], [('fold over segments', PG + ' PolygonLine.bounding_box')])
prop('G14', 'Convexity and orientation of polygons',
     'A closed valid polygon is convex exactly if all its turns (closing one included) go the same way; asking an invalid polygon is refused. '
     'It is clockwise exactly if its signed area is negative, also if it is concave, and counter-clockwise otherwise.',
     'all polygons with clearly separated vertices and turns', 'Concave polygons with as many left as right turns are rare among samples.', [PG],
     [('turns', PG + ' PolygonLine.cps/isconvex'), ('signed area', PG + ' PolygonLine.iscw/isccw')])
prop('G15', 'Convex hull',
     'The convex hull of points is a closed counter-clockwise strictly convex polygon whose vertices are among the points and which has every '
     'point inside or on its boundary, for every order of the points.',
     'all sets of points (no three almost but not quite on a line)', SAMPLE + 'collinear and interior points in any order are quantified over.',
     [PG], [('monotone chain', PG + ' convex_hull')])
prop('G16', 'Point inside, outside or on the boundary of a polygon',
     'A point that is not on the boundary of a closed polygon is internal exactly if it is enclosed (odd crossing number), external exactly if '
     'it is not; the ray used for counting starts at the point and leaves the bounding box. A vertex is never internal; a '
     'point is on the boundary exactly if it is on the line of a segment and within its extent.',
     'all polygons and points clearly off the boundary (or exactly on it for the boundary test)',
     'The answer depends on random rays: a test run samples a few rays for a few points.', [PG],
     [('ray casting', PG + ' PolygonLine.is_internal_point/is_external_point'), ('boundary', PG + ' PolygonLine.is_on_boundary')],
     over=('inputs', 'histories'))
prop('G17', 'Triangles: construction, area, angles',
     'Three sides that form one ring make a triangle in whatever order and orientation they are given; its area is half the absolute cross '
     'product of two sides and its three angles are those between the sides leaving each corner. Sides that do not form a ring, '
     'other numbers of sides and corners on one line are refused.',
     'all triangles, all orders and orientations of their sides', SAMPLE + 'side orders and orientations are quantified over.', [PG],
     [('construction', PG + ' Triangle.__init__'), ('Heron', PG + ' Triangle.area'), ('angles', PG + ' Triangle.angles/quality')])
prop('G18', 'Relations of two triangles',
     'Two triangles are congruent exactly if they have the same corners; they overlap exactly if a corner of one is internal to the other '
     'or two sides cross at a point that is no corner, touch exactly if their sides have exactly one stretch in common. They '
     'are disjunct exactly if they are not congruent, do not overlap and do not touch, and overlap, touch and congruence are symmetric. One '
     'encloses the other exactly if all corners of that are internal to it.',
     'all pairs of triangles with clearly separated or identical corners', 'Relative positions of two triangles have many combinatorial types.', [PG],
     [('relations', PG + ' Triangle.overlap/touch/congruent/disjunct/enclosed')])
prop('G19', 'Building polylines: nodes, squares, arcs, rotation matrix',
     'A line through nodes has exactly those nodes as vertices, in order (from the first one backwards if clockwise), consecutive segments '
     'sharing theirs. A square of a given side stands on the given point, is closed and turns as asked; an arc of n segments has n + 1 vertices '
     'on its circle in equal angular steps from the first to the last angle (reversed if clockwise) and impossible parameters are refused. '
     'The rotation matrix of an angle is [[cos, sin], [-sin, cos]].',
     'all node lists, positions, radii, angles', SAMPLE + 'the clockwise variants are hardly tested.', [PG],
     [('builders', PG + ' polygon_from_nodes/square/arc/rotationsmatrix')])
prop('G20', 'Removing outliers',
     'Removing outlier segments drops exactly those segments of which an end point belongs to no other segment, in one pass, and keeps the rest '
     'in order. Simplifying a polygon removes outliers and exactly the internal and external points that belong to removed segments.',
     'all graphs of segments', 'Outliers depend on which segments share which points.', [PG],
     [('outliers', PG + ' remove_outlier_segments'), ('points follow', PG + ' simplify')])
prop('G21', 'Polygon groups: incidence, validity, selection, overlaps',
     'In a group of polygons every vertex gets its own number 0..n-1, the adjacency list gives for each vertex exactly the other ends of its '
     'segments, and the degree is their number; segments are found by the point they start or end at. A group is valid exactly if its polygons '
     'are valid and every vertex has degree 2 or 3, at least three of degree 2 and an even number of degree 3; polygons are selected by points '
     'or by an equal polygon, and the overlaps of two cycles are exactly the polygons they have in common; a vessel names its parts there.',
     'all groups of polygons', 'Graph properties over all incidences; the tests have a few vessels.', [GR, PG],
     [('numbering', GR + ' PolygonGroup.points_numbered/as_adjacency_list/node_degree'), ('validity', GR + ' PolygonGroup.isvalid'),
      ('selection', GR + ' PolygonGroup.segments_from_points/polygon_from_repr'), ('overlaps', GR + ' BehalterGraph.overlaps_in_cycles')])
prop('G22', 'Finding the closed loops of segments',
     'The loops found among segments are exactly the simple closed loops they form, each once, shortest first, and each is a closed continuous '
     'polygon. Walking segments returns one loop without branches or nothing, for any order and orientation of '
     'the segments, and leaves its input untouched.',
     'all planar graphs of segments in any order and orientation', 'The result must be right for every graph and presentation; a missed or duplicated '
     'loop only shows for particular ones.', [GR, PG], [('search', GR + ' BehalterGraph.find_loops'), ('walk', PG + ' walk_segments')])
prop('G23', 'Equality of polylines',
     'Two polylines are equal exactly if they have equal segments in the same order, and equal ones hash alike. They are loosely equal exactly if '
     'they have the same segments up to order and orientation; one is a loose subset of another exactly if all its end points are end points '
     'of the other.',
     'all pairs of polylines, orders and orientations', SAMPLE + 'the laws hold for all of them.', [PG],
     [('equality', PG + ' PolygonLine.__eq__/__hash__'), ('loose', PG + ' PolygonLine.loose_equal/loose_subset')])
prop('G24', 'Validity of a polyline',
     'A polyline is valid exactly if all its segments are valid, it is continuous and no two of its segments cross; the crossing pairs listed '
     'are exactly the pairs of segments that meet in a point that is not a shared end point.',
     'all polylines', 'Crossings of any two of the segments are quantified over.', [PG], [('validity', PG + ' PolygonLine.isvalid'),
                                                                                         ('crossings', PG + ' PolygonLine.crossing_lines')])
prop('G25', 'Triangulation and area of a polygon',
     'The triangles stored for a simple polygon have its vertices as corners, lie inside of it, and their areas add up to its area (the ear '
     'clipping algorithm: if no three vertices are in line). Triangulating runs the algorithm asked for if there are no triangles of the '
     'polygon as it is now, or if forced, and does nothing otherwise; without an algorithm or with an unknown one it is refused. The area is that '
     'of the polygon as it is now, to 8 decimals, also after it was moved or changed.',
     'all simple polygons and changes of them', 'Areas and triangles decide which loops and rooms are kept; a wrong or stale one only shows for '
     'particular shapes or after particular changes.', [PG],
     [('area', PG + ' PolygonLine.area/detailled_area'), ('dispatch', PG + ' PolygonLine.triangulate'),
      ('algorithms', PG + ' PolygonLine.triangle_mesh/ear_clipping')],
     state=[('triangles', 'triangles and the coordinates they were made for', PG + ' PolygonLine._triangles')])
prop('G26', 'Points in which a line meets a sphere',
     'The line through two different points in space and a sphere of positive radius have two points in common if the line passes the centre at '
     'less than the radius, one if at exactly the radius, none if at more. The points returned are on the line and on the sphere, and two of '
     'them are different; with a single one it is the first that is given.',
     'all lines, centres and radii', SAMPLE + 'the touching line is met by chance only.', ['geometry/additional_stuff.py'],
     [('points', 'geometry/additional_stuff.py sphere_line_intersection')])
prop('G27', 'Joining polylines and removing collinear points',
     'Adding polylines, in the order given, gives one valid, purged polyline of all their segments, with one connecting segment wherever one '
     'does not start where the one before it ends; it is refused exactly if one of them or the sum is invalid or all of them are closed, and the '
     'polylines added stay as they are (the sum shares nothing with them). Removing the collinear points of a closed polygon leaves exactly '
     'its corners, in their order, in a new polygon; its collinear points are those that have their neighbours on the same line, the ends of such '
     'lines are the corners next to one of them.',
     'all polylines of any length (adding); all closed polygons in which a vertex is clearly a corner or clearly on a side',
     SAMPLE + 'gaps between the pieces, runs of several collinear points and where the polygon starts are combinations.', [PG],
     [('joining', PG + ' add'), ('removing', PG + ' remove_collinear_points'), ('collinear', PG + ' PolygonLine.collinear_points')])
prop('V01', 'Outline of a cylindrical or conical shell',
     'A shell (Mantel) of diameters d0 below and d1 above, height h, standing at (pos_h, pos_v), has four sides in this order: right wall from '
     '(pos_h+d0/2, pos_v) up to (pos_h+d1/2, pos_v+h), open top, left wall down, open foot; consecutive sides share their corner, so that the '
     'outline is closed. A skirt (StandZarge) has the same outline with a closed foot. Walls and open ends are told apart, the graph of a shell '
     'consists of its walls, its characteristic size is the smaller radius. A shell is valid exactly if its graph consists of two walls whose lower '
     'ends are at the same height and whose upper ends are, both the same distance from the axis on either side.',
     'all positions, diameters 0.01..1e4 and heights; cylinders and cones widening or narrowing; on concrete runs cones no flatter than 1:20',
     SAMPLE + 'the outline has to be right for every size and position.', [HT],
     [('outline', HT + ' Mantel.make_segments'), ('validity', HT + ' Mantel.isvalid'), ('skirt', HT + ' StandZarge.make_segments')])
prop('V02', 'Flat bottoms and room ends',
     'A flat bottom (Flachboden) is one wall from (pos_h-d/2, pos_v) to (pos_h+d/2, pos_v); a room end (RaumEnde) is the same piece. Both are always '
     'valid, have half the diameter as characteristic size where it is defined, and the known points of a flat bottom lie just above and below it. '
     'A point clearly off the line of a flat bottom, or beyond or at its ends, is not on its inside; points strictly between its ends are.',
     'all positions and diameters; points clearly off or exactly on the line',
     SAMPLE + 'positions, diameters and points are quantified over.', [HT],
     [('outline', HT + ' Flachboden.__init__, RaumEnde.__init__'), ('inside', HT + ' Flachboden.is_internal_point')])
prop('V03', 'Outline of torispherical heads',
     'A torispherical head of diameter d with cylindrical part h1 and its base at (pos_h, pos_v) consists of 17 sides: the cylindrical part, three '
     'of the knuckle, eight of the crown, three of the other knuckle, the other cylindrical part (all walls), and the open base. Crown and knuckle '
     'radii are d and 0.1d for a Klopperboden, 0.8d and 0.154d for a Korbbogenboden; their vertices lie on the arcs at equal angles, the knuckle '
     'touches cylinder and crown without a kink, neighbouring parts meet (within 2e-7), the outline is closed and symmetric about its axis. With '
     'orient=-1 the head is turned upside down about the middle of its base.',
     'all positions, diameters 0.01..1e4 and cylinder heights, both kinds, both orientations',
     SAMPLE + 'the arcs have to meet for every diameter.', [HT, PG],
     [('outline', HT + ' TorispherischesBoden.make_segments'), ('arcs', PG + ' arc')])
prop('V04', 'Parts made from dicts',
     'A part made by from_dict (Mantel, StandZarge, Klopperboden, Korbbogenboden, Flachboden, RaumEnde) has the class it was asked of and is the same as one constructed with these values; a dict that lacks a key or has '
     'one that the part does not know is refused with an error.',
     'Mantel, StandZarge, Klopperboden, Korbbogenboden, Flachboden, RaumEnde; all values, each key missing, foreign keys',
     SAMPLE + 'every key of every class is checked.', [HT], [('from_dict', HT + ' Mantel/Klopperboden/Korbbogenboden/Flachboden/RaumEnde.from_dict')])
prop('V05', 'Cutting parts at a height or by a room end',
     'A shell split at a height strictly between its ends (or by a room end there that is wider than the shell) has each of its two walls '
     'replaced by two walls meeting at that height on the wall, keeps its open ends, and its graph has the four pieces. The room end itself is '
     'replaced by a wall piece up to the shell, an open middle and a wall piece if asked to, or kept. At its ends or outside, or by a room end that '
     'does not reach both walls, nothing is changed and False returned. Heads are never split. A vessel cuts all its shells by all its room ends.',
     'all shells, heights and room end widths clearly (1e-4) inside or outside or exactly at the ends',
     SAMPLE + 'heights and widths are quantified over.', [HT],
     [('split', HT + ' Hauptteil.split'), ('vessel', HT + ' Behalter.cut_by_raumende')],
     state=[('outline', 'segments of the part and of its graph', HT + ' Hauptteil._segments, Graph')])
prop('V06', 'Knuckle between shell and cone',
     'A knuckle (KegelKrempe) at the junction of a shell (Mantel) and a narrowing cone under it has on each side two walls for r=0: from the point of the '
     'cone h_kegelside below the junction to the junction, and on to the point of the shell h_non_kegelside above it; for r>0 an arc of radius r in '
     'three sides that touches both walls, extended along the walls to those heights where they lie beyond the arc. Two horizontal open ends join the '
     'sides to one closed outline, symmetric about the axis. Afterwards shell and cone end where the knuckle begins, and a shell or skirt under it '
     'ends at the foot of its uppermost wall; their graphs are renewed. A valid knuckle is never refused, whatever the sizes; one whose ends do not lie on the '
     'walls, with a height that is not positive, without a narrowing cone, with no or more than two parts or parts that are no shells is refused and '
     'nothing is changed. from_dict makes the same knuckle; a missing or unknown key is refused.',
     'r=0: all positions, sizes and heights clearly (1e-3) within the walls; cylindrical and conical shells above. r>0 (concrete only): cylinders above, radii of '
     '0.01 to 0.3 diameters, cones of at least half a degree',
     SAMPLE + 'the ends must meet the walls whatever the rounding.', [HT],
     [('outline', HT + ' KegelKrempe.make_segments'), ('requirements', HT + ' KegelKrempe.assert_checking'), ('from_dict', HT + ' KegelKrempe.from_dict')],
     state=[('outline', 'segments of the knuckle, of the shell, of the cone and of the part under it, and of their graphs', HT + ' Hauptteil._segments, Graph')])
prop('V07', 'Known inside and outside points of parts',
     'Each wall of a shell has two known points inside and two outside: strictly between the heights of its ends, on the inner and on the outer side '
     'of the wall. A head is represented by two walls from its ends to a flat peak at (pos_h, pos_v + orient*max(0.1, d/1000)); each has two known '
     'inside points strictly between base and wall and one outside point beyond the wall, on its own side of the axis. A knuckle under a '
     'cylinder has two known points inside and two outside next to each wall. The known points are renewed when the outline is.',
     'all sizes (diameter at least 1, taper at most 1:10) and positions',
     SAMPLE + 'which room is on which side of a part is decided by these points, for every size.', [HT, GR],
     [('shell', HT + ' Mantel.intex_points'), ('head', HT + ' TorispherischesBoden.intex_points'), ('points', GR + ' Graph.add_intex_points')])
prop('V10', 'Comparing a result with a pattern',
     'raum_dict_checker returns True exactly if there is one and only one one-to-one renaming of the rooms of the result that turns it into the '
     'pattern; otherwise it raises. Neither dict is changed.',
     'all dicts of parts, entries and sets of rooms', SAMPLE + 'only matching pairs are ever compared there; what must not match is not tested.', [HT],
     [('comparison', HT + ' raum_dict_checker')])
prop('V08', 'Base loops of a vessel',
     'From all loops that can be found among the walls of a vessel exactly those are kept that are not made up of others (the ones around two or more '
     'adjacent chambers are dropped), whatever the sizes of the chambers: equal areas, or areas that add up by chance, do not matter. Each loop is kept '
     'once, also if it was found twice from different corners, as a closed polygon; separate vessels and those inside of others keep their loops. Two '
     'loops are disjunct exactly if none of their triangles overlap or are the same.',
     'all layouts of chambers in a row, side by side and inside of others, all sizes of the chambers',
     SAMPLE + 'whether a loop is a union of others must not depend on the sizes.', [GR, PG],
     [('selection', GR + ' BehalterGraph.keep_base_polygons'), ('disjunct', PG + ' PolygonLine.disjunct'),
      ('loops', PG + ' PolygonLine.loose_equal/closed_copy')])
prop('V09', 'Rooms of a vessel',
     'A vessel has one room per base cycle, named R1, R2, ... in their order. The outer wall of a room are the parts of its cycle; its inner walls are '
     'the parts of the cycles contained in it, those with parts in common merged into one, without the parts in common. A cycle is contained in another '
     'one exactly if all points of its parts lie inside of it. Making the rooms again changes nothing; the polygon of a room has all walls of its parts.',
     'all incidences of cycles and parts, all containment relations', SAMPLE + 'which parts cycles have in common differs from vessel to vessel.', [HT, GR],
     [('rooms', HT + ' Behalter.raum_erstellen'), ('walls', HT + ' Raum'), ('containment', GR + ' BehalterGraph.contained_cycles')],
     state=[('rooms', 'list of rooms of the vessel, name, outer and inner walls of each', HT + ' Behalter.raume, Raum._aussere_wandung/_innere_wandung')])
prop('V11', 'Rooms inside and outside of the parts of a vessel',
     'For every part the result names the rooms inside, outside and at its indifferent sides: a room is inside (outside) of a part among its walls exactly '
     'if for at least one wall of the part all known inside (outside) points lie in the room, and indifferent if at least one of the indifferent points '
     'lies outside of it; rooms it is no wall of are not named. For vessels of stacked chambers, several separate ones or one inside of another, '
     'of any sizes, positions and order of the parts, the result names the chamber below, above and around each part.',
     'all vessels of shells and bottoms whose walls each have known points of a kind or none',
     SAMPLE + 'the result must not depend on sizes, positions or the order of the parts.', [HT, GR],
     [('result', HT + ' Behalter.raum_intex'), ('known points', GR + ' Graph.internal/external/indifferent')])
