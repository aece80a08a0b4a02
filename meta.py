"""Text of the properties; mk.py turns it into properties.jsonl and MANIFEST.json."""
PROPS = []
NA = {}
NOTES = 'lsx/ is the symbolic executor, harness/ the Rust harnesses; see DESIGN.md.'
def P(id, title, statement, over, qtext, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech))

EXT = 'workspace/boostvoronoi_ext/src/'
CORE = 'workspace/boostvoronoi_core/src/'

P('C01', 'Wide-integer arithmetic is exact',
  'Adding, subtracting and multiplying ExtendedInt values, multiplying by an i32 and converting from i32, i64 and u-sized machine integers give exactly the mathematical result, for every operand form (values or references). '
  'Cancellation to zero, carries across all words and operands of different lengths or signs lose nothing.',
  ['inputs'], 'all word contents, lengths up to the bound and signs of both operands',
  'The tests compare a few hand-picked and random numbers; carries, borrows and cancellations at particular words are reached by a vanishing share of the inputs.',
  [EXT + 'extended_int.rs'], 'sign and magnitude in an array of 32-bit words; schoolbook addition, subtraction and multiplication with carries')
P('C02', 'Wide integers report their sign and convert to f64 faithfully',
  'ExtendedInt reports zero, positive and negative correctly, negation only changes the sign, and its conversion to an f64 mantissa and exponent (p) and to f64 (d) keeps the sign and the magnitude: correctly rounded up to 64 bits and within a relative error of 2^-50 beyond.',
  ['inputs'], 'all word contents, lengths up to the bound and signs',
  'The tests convert a few numbers; which words take part in the conversion and how they are scaled depends on the length and on every word.',
  [EXT + 'extended_int.rs'], 'p() combines the three leading words, d() scales with the remaining length')
P('C03', 'Doubles with an extended exponent compute like correctly rounded reals',
  'ExtendedExponentFpt keeps its value when constructed from any finite f64 (normal, subnormal or zero) or from an ExtendedInt, converts back to the same f64 when that is representable, and add, subtract, multiply, divide and square root equal the correctly rounded f64 operation on the scaled mantissas with the exact exponent, whatever the distance of the exponents. '
  'Zero is neutral for addition, and the compound-assignment forms agree with the operators.',
  ['inputs'], 'all mantissas and signs of both operands; exponents within the stated bounds',
  'The tests use a few values near 1; alignment, renormalisation, subnormals and far exponents need particular bit patterns.',
  [EXT + 'extended_exp_fpt.rs'], 'value in +-[0.5,1) times a power of two kept in an i32; exponents aligned before sums')

P('C04', 'Doubles with an error estimate propagate it through every operation',
  'A RobustFpt operation gives the f64 result of the operation, with an error estimate that is the larger one plus one for sums of one sign, the absolute errors relative to the result plus one for sums of different signs (infinite if everything cancels), the sum plus one for products and quotients, and half plus one for square roots. '
  'A RobustDif keeps non-negative positive and negative parts: adding, subtracting, multiplying and dividing by values of either sign gives the parts that the exact operation on positive minus negative has, and dif() is their difference.',
  ['inputs'], 'all mantissas and signs of the operands; sums of different signs from a table',
  'An estimate that is too small never shows until some input makes the fast path wrong; tests do not look at the estimates.',
  [EXT + 'robust_fpt.rs'], 'relative error in units of the last place next to every value; differences of two non-negative sums')

P('C05', 'Orientation of points is exact',
  'The orientation (left turn, right turn, collinear) of three points with any i32 coordinates is the sign of the exact determinant, and the same holds for two difference vectors with components up to 2^62. '
  'No rounding or overflow ever turns a turn into a collinear triple or the reverse.',
  ['inputs'], 'all coordinates',
  'Errors only show for nearly collinear triples or coordinates near the ends of the range.',
  [CORE + 'predicate.rs'], 'robust_cross_product of i64 differences and the sign of the result')
P('C06', 'Sites are swept in one strict order',
  'Input sites are ordered for the sweep by the x then y position of their first end, a point before the segments starting there, vertical segments among the points, other segments that start together by their direction counter-clockwise; this order is irreflexive, antisymmetric and transitive. '
  'Two sites are duplicates exactly when they are the same point or the same segment.',
  ['inputs'], 'all coordinates of two and of three sites, points and segments mixed',
  'A sort with an inconsistent order fails only on particular triples; the tests sort a few lists.',
  [CORE + 'predicate.rs', CORE + 'site_event.rs', CORE + 'end_point.rs'], 'event_comparison_ii, point_comparison, SiteEvent::cmp and eq')
P('C07', 'Sites keep their identity and classify their bisectors',
  'Reversing a site swaps its ends and nothing else: source index, position in the sweep and category stay, and reversing twice restores it. '
  'The edge between a segment and one of its own end points is secondary, every other edge is primary; an edge is curved exactly between a segment and a point that is not one of its ends.',
  ['inputs'], 'all coordinates, indices and category bits',
  'Which end of the segment touches the point, and which of the two sites comes first, multiply into cases the tests do not enumerate.',
  [CORE + 'site_event.rs', CORE + 'diagram.rs'], 'SiteEvent::{inverse, is_primary_edge, is_linear_edge, or_source_category}')
P('C08', 'Tolerant comparisons use exactly the stated number of doubles',
  'Two doubles compare as equal exactly when at most the given number of representable doubles lie between them, whatever their signs and magnitudes, and otherwise as their values do. '
  'A site is handled before a circle event only if it lies left of the end of the circle by more than 64 representable doubles; a circle is refused beside a vertical segment only if its centre is above or below it by more than 64.',
  ['inputs'], 'all doubles, all coordinates',
  'Sign changes, zeros and the exact edge of the tolerance are single values among 2^64.',
  [CORE + 'ctypes.rs', CORE + 'predicate.rs'], 'ulp_comparison on the bit patterns, event_comparison_bif, lies_outside_vertical_segment')
P('C09', 'The circle event queue returns the first active event, always',
  'Circle events are totally ordered by the end of the circle, then by the height of its centre, and after any sequence of insertions, deactivations and removals the queue returns exactly the first event that was inserted and neither removed nor deactivated. '
  'An event is reported active exactly from its insertion to its deactivation or removal.',
  ['inputs', 'histories'], 'all event coordinates and all operation sequences up to the bound',
  'Which operation sequences corrupt the heap or the set of inactive events depends on ties and on the order of the operations.',
  [CORE + 'circle_event.rs', CORE + 'lib.rs'], 'BinaryHeap of reference counted events plus a growing bit set of inactive ids')

P('C10', 'Every diagram is a consistent edge list',
  'For every valid input (points and segments that neither cross nor touch each other\'s inside) build() succeeds and twin, next, prev, cell and vertex references of the diagram agree with each other: twins point at each other and lie in different cells, the edges of a cell form one closed ring, the edges around a vertex form one ring of at least three, and every edge, cell and vertex is reachable that way. '
  'Every edge has a cell and a successor, every vertex an incident edge, and the numbers of vertices, edges and cells satisfy Euler\'s formula.',
  ['inputs'], 'all inputs of the stated size over the coordinate tables',
  'A wrong reference appears only for particular degenerate configurations (collinear or cocircular sites, shared segment ends, ties in the sweep); the tests build a few fixed inputs.',
  [CORE + 'builder.rs', CORE + 'diagram.rs', CORE + 'beach_line.rs', CORE + 'predicate.rs'], 'sweep line with beach line and event queue inserts edges; build finally removes degenerate edges and links infinite ones')
P('C11', 'Every input site gets exactly one cell that names its source',
  'The diagram has exactly one cell per distinct input site: every distinct point, every distinct segment and every distinct segment end point, whatever the order of the input and however often a site is repeated. '
  'Each cell reports the index of the input object it came from and the category (single point, segment start, segment end, segment) that leads back to exactly that site.',
  ['inputs'], 'all inputs of the stated size over the coordinate tables, unsorted and with duplicates',
  'Duplicates are removed after sorting and segment ends shared by several segments are merged; which index and category survives depends on the input order.',
  [CORE + 'builder.rs', CORE + 'diagram.rs', CORE + 'site_event.rs'], 'site events carry their input index and category through sorting, deduplication and reversal')
P('C12', 'Point diagrams are the Voronoi diagram',
  'For points, every vertex is the centre of an empty circle through the sites of all cells around it, accurate to the last few bits of each coordinate, also when four or more sites are cocircular; no edge has length zero. '
  'The middle of every finite edge is as close to the sites of its two cells as to any other site, and each cell lies to the left of its edges.',
  ['inputs'], 'all point sets of the stated size over the coordinate tables',
  'Wrong circles, tolerances or event orders show only for nearly cocircular or collinear points; the tests compare a few diagrams with stored results.',
  [CORE + 'predicate.rs', CORE + 'predicate/lazy_circle_formation.rs', CORE + 'predicate/exact_circle_formation.rs', CORE + 'builder.rs', CORE + 'diagram.rs'], 'circles are computed in doubles with error bounds, and again exactly when the bound is too large')
P('C13', 'Segment diagrams are the Voronoi diagram of points and segments',
  'With segments, every vertex is at the same distance from the sites of all cells around it and no other site is closer (within 1e-9 of the size of the input), straight finite edges lie between nearest sites, and vertices marked as lying on a site do so. '
  'An edge is secondary exactly between a segment and its own end point, curved exactly between a segment and any other point, and point cells lie to the left of their straight edges.',
  ['inputs'], 'all inputs of the stated size over the coordinate tables',
  'There are four kinds of circles and several positions of the segment in each; which one is computed, and whether exactly, depends on the geometry.',
  [CORE + 'predicate.rs', CORE + 'predicate/lazy_circle_formation.rs', CORE + 'predicate/exact_circle_formation.rs', CORE + 'predicate/circle_existence.rs', CORE + 'builder.rs', CORE + 'diagram.rs'], 'circles of points and segments, existence tests, secondary edges inserted with each segment')
P('C14', 'Accessors, iterators and SyncDiagram agree with the diagram records',
  'All accessors and iterators of Diagram (twin, next, prev, rotation, vertices, cells, finiteness, lines) return what the records say, and a SyncDiagram made from it returns the same; rotating forwards and backwards visits the same edges around a vertex. '
  'An id that does not exist gives an error, None or an empty iteration, never a panic, and changes nothing.',
  ['inputs'], 'all inputs of the stated size over the coordinate tables; all ids',
  'The tests use the accessors on a few diagrams and almost never with ids that do not exist.',
  [CORE + 'diagram.rs', CORE + 'sync_diagram.rs', CORE + 'lib.rs'], 'index newtypes, checked vector access, rotation iterators, conversion of Diagram into SyncDiagram')
P('C15', 'Colours are kept, and exterior colouring marks exactly the exterior',
  'Setting or adding a colour on an edge or vertex changes the 27 colour bits and nothing else, and reading returns them. '
  'color_exterior_edges with a non-zero colour marks exactly the edges and vertices reachable from infinite edges along primary edges without passing through a vertex on an input site, together with the twins of those edges; everything inside closed chains of segments stays unmarked.',
  ['inputs'], 'all u32 colours; all inputs of the stated size over the coordinate tables',
  'Flags and colours share a word, and the flood stops at edges that only some geometries have; the tests colour a few diagrams.',
  [CORE + 'diagram.rs', CORE + 'lib.rs'], 'ColorBits packed with flags, recursive flood from infinite edges')
P('C16', 'Diagrams are right at the ends of the coordinate range',
  'For i32 coordinates at or near i32::MIN and i32::MAX and for sites 2^32 apart, build() succeeds without overflow, and the diagram is consistent, has one cell per site and correct vertices just as for small coordinates.',
  ['inputs'], 'all inputs of the stated size over the coordinate tables at the ends of the range; all collinear point sets, point pairs and single segments of any i32 coordinates',
  'Intermediate values overflow or lose bits only for extreme coordinates, which the tests do not use.',
  [CORE + 'predicate.rs', CORE + 'predicate/lazy_circle_formation.rs', CORE + 'predicate/exact_circle_formation.rs', CORE + 'builder.rs'], 'differences in i64, products in u64 or extended integers')
P('C17', 'The diagram does not depend on how the input is given',
  'The same sites in another order, or segments with exchanged ends, give the same diagram: same vertices, edges and cells in the same order, with each cell naming the same site. '
  'Giving the input in several calls or as arrays instead of points and lines makes no difference, and points after segments are refused.',
  ['inputs'], 'all inputs of the stated size over the coordinate tables and the listed permutations and reversals',
  'The sweep sorts its input; an order that is not strict or an index taken before sorting shows only for particular permutations.',
  [CORE + 'builder.rs', CORE + 'site_event.rs', CORE + 'predicate.rs'], 'events are sorted and deduplicated before the sweep; index offsets over several calls')
P('C18', 'Bounding boxes are the smallest around what was added',
  'An Aabb2 built from points, lines, vertices or coordinates has as low and high corner exactly the smallest and largest coordinates added so far, and none while nothing was added. '
  'contains_point and contains_line answer whether all coordinates lie within the box, edges included. grow_percent moves every side outwards by that percentage of the longer side and does nothing to an empty box.',
  ['inputs'], 'the listed sequences of up to three updates with any i32, i64 or finite f64 coordinates',
  'Mixed signs, equal coordinates and first updates behave differently; a test has a few boxes.',
  [CORE + 'visual_utils.rs'], 'Aabb2::update_*, contains_*, grow_percent')
P('C19', 'Transformations map box to box and back again',
  'SimpleAffine::new(source, destination) maps the centre of the source to the centre of the destination with one positive scale for both axes, chosen so that all of the source fits into the destination; it fails without a box. '
  'All transform methods agree on the same coordinates, and the reverse methods return the original integer, rounding to the nearest, or an error outside the integer type. to_segments_offset scales and moves every coordinate of every segment.',
  ['inputs'], 'all boxes with corners from the tables; all i32 on the way back',
  'Axes or signs exchanged in one of many similar methods show only for boxes that are neither square nor centred.',
  [CORE + 'visual_utils.rs'], 'SimpleAffine::new/transform*/reverse_transform*, to_segments_offset')
P('C20', 'Discretised parabolic edges stay on the parabola within the distance',
  'VoronoiVisualUtils::discretize keeps the two given end points first and last and puts the further points in order between them, every one on the parabola of the given point and segment, mapped by the given transformation. '
  'The arc between two consecutive points is nowhere further from their chord than the given distance.',
  ['inputs'], 'all combinations of the tables of segments, points, ends, distances and transformations',
  'Directions, sides and transformations multiply; an error in one of them leaves a plausible curve.',
  [CORE + 'visual_utils.rs'], 'discretize: parametrisation along the segment, subdivision by distance')
P('C21', 'Conversions keep every coordinate',
  'Points, lines and vertices converted from or to arrays, other integer types and the types of geo, cgmath, mint, glam and nalgebra keep each coordinate and the order of start and end. '
  'try_cast returns the value, rounded towards zero for doubles, if and only if the target type holds it, and an error otherwise.',
  ['inputs'], 'all i32, i64 and f64 values',
  'Conversions at the ends of the types; many small functions that tests do not call.',
  [CORE + 'geometry.rs', CORE + 'lib.rs', CORE + 'diagram.rs'], 'From impls; Point::cast, Line::cast, try_cast')
P('C22', 'The text reader returns exactly the sites that were written',
  'read_boost_input_buffer returns, for a text with a count, that many points of two numbers, a count and that many segments of four numbers, exactly these points and segments in this order. '
  'At the first line that does not have this form or has a number outside the integer type it stops and returns the sites before that line; it neither panics nor fails.',
  ['inputs'], 'all digits and signs of well-formed texts of the stated shapes; all texts of four letters out of six or eight after six beginnings',
  'Malformed and truncated texts are unlimited in kind.',
  [CORE + 'file_reader.rs'], 'the state machine of read_boost_input_buffer')
