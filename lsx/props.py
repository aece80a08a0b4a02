"""The checks: which harnesses decide which property, with which parameters (= bounds)."""
from .driver import Run

PROPS = {}
NOTE = ('counterexamples count only after they reproduce in a native build of the same harness',)

def prop(pid, runs, bounds, outside, assumptions=()):
    PROPS[pid] = {'runs': runs, 'bounds': bounds, 'outside': outside, 'assumptions': list(NOTE) + list(assumptions)}

def grid(*dims):
    out = [()]
    for d in dims:
        out = [o + (x,) for o in out for x in d]
    return out

# ---- exact integers -------------------------------------------------------------------------------------------
PAIRS = [(i, j, (i + j) % 3) for i in range(5) for j in range(5)]
prop('C01', [
    Run('eint', 'h_add', PAIRS, what='x + y is exact'),
    Run('eint', 'h_sub', PAIRS, what='x - y is exact'),
    Run('eint', 'h_mul', PAIRS, what='x * y is exact'),
    Run('eint', 'h_muli', [(0,), (1,), (2,), (3,), (4,)], what='x * i32 is exact'),
    Run('eint', 'h_from', [(0,), (1,), (2,), (3,), (4,)], what='conversion from machine integers is exact'),
    Run('eint', 'h_add', [(5, 5, 0), (5, 4, 1), (6, 6, 0), (8, 8, 0), (8, 3, 0)], tier='t'),
    Run('eint', 'h_sub', [(5, 5, 0), (5, 4, 1), (6, 6, 0), (8, 8, 0), (8, 3, 0)], tier='t'),
    Run('eint', 'h_mul', [(5, 4, 0), (5, 5, 1), (6, 6, 0), (8, 8, 0)], tier='t'),
], 'operands of 0 to 4 words of 32 bits each, every pair of lengths (quick; every limb and sign symbolic), up to 8 words (thorough); all three operand forms of the operators; loops unrolled completely',
   'operands of more than 8 words; operand lengths not listed in runs[].params')
prop('C02', [
    Run('eint', 'h_sign', [(0,), (1,), (2,), (3,), (4,)], what='sign queries, negation, size'),
    Run('eint', 'h_p', [(0, 0), (1, 0), (2, 0), (3, 0), (3, 1), (3, 2), (3, 3), (4, 0), (4, 2), (5, 1)], what='p() keeps sign and magnitude'),
    Run('eint', 'h_d', [(0,), (1,), (2,), (3,), (4,), (5,)], what='d() equals p() scaled'),
    Run('eint', 'h_d', [(6,), (8,)], tier='t'),
    Run('eint', 'h_p', [(6, 0), (6, 2), (8, 0), (8, 1), (8, 3)], tier='t'),
], 'numbers of 0 to 5 words (quick), up to 8 words (thorough), every limb and sign symbolic; correct rounding for up to two words, exactness of three leading words in three families, a factor two bound otherwise',
   'last-bit rounding of three full leading words')

# ---- doubles with a 32-bit exponent ---------------------------------------------------------------------------
prop('C03', [
    Run('eef', 'h_new', [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)], what='construction normalises and keeps the value; signs and negation'),
    Run('eef', 'h_d', grid((-1021, -1000, -53, -1, 0, 1, 2, 52, 1023, 1024)), what='d() inverts the construction'),
    Run('eef', 'h_dlim', grid((-2000, -1200, 1025, 1100, 2000)), what='d() beyond the range of doubles'),
    Run('eef', 'h_mul', grid((0, 1, 2)), what='product correctly rounded, exponents added'),
    Run('eef', 'h_div', grid((0, 1, 2)), what='quotient correctly rounded, exponents subtracted'),
    Run('eef', 'h_sqrt', what='square root correctly rounded, exponent halved', reach=(1, 2, 3)),
    Run('eef', 'h_add', grid((0, 1, 2, 53, 54), range(8)), what='sum and difference correctly rounded'),
    Run('eef', 'h_far', what='sum with a far smaller operand'),
    Run('eef', 'h_zero', what='zero is neutral'),
    Run('eef', 'h_int', grid((0, 1)), what='conversion from ExtendedInt'),
    Run('eef', 'h_add', grid((3, 4, 10, 26, 27, 51, 52), range(8)), tier='t'),
    Run('eef', 'h_d', grid(range(-1021, 1025, 31)), tier='t'),
], 'mantissa and sign of every operand symbolic (all doubles, normal, subnormal and zero, for construction); exponents symbolic within +-100000; exponent distance of summands fixed per run (see params), any distance above 54 in h_far',
   'exponents within 100000 of the i32 limits; infinities and NaN',
   ('a rounded double operation is the correctly rounded IEEE result (the executor and the solver share that reading)',))

# ---- doubles with an error estimate ---------------------------------------------------------------------------------
prop('C04', [
    Run('rfpt', 'h_add', grid(range(4)), what='sums of one sign: value and larger error plus one'),
    Run('rfpt', 'h_addt', grid(range(4)), what='sums of both signs: weighted error, infinite after complete cancellation', reach=(1, 2, 3), fd=3000000),
    Run('rfpt', 'h_mul', [(0,), (1,), (2,), (4,), (5,), (6,)], what='products and quotients: errors add'),
    Run('rfpt', 'h_sqrt', what='square root: half the error'),
    Run('rfpt', 'h_sign', what='signs, negation, construction'),
    Run('rfpt', 'h_dif', grid((0, 1, 2, 3, 4, 5, 6, 8)), what='differences keep both parts apart'),
    Run('rfpt', 'h_difr', grid(range(12)), what='differences with single operands of either sign'),
    Run('rfpt', 'h_dift', what='the value of a difference', fd=3000000),
], 'values of magnitude 2^-100 to 2^100 or zero with any mantissa and sign, error estimates up to 2^20; sums whose operands have different signs and the value of a difference: a table of 16 values by 4 errors per operand (decided by the finite domain procedure)',
   'values beyond 2^100; sums of different signs outside the table')

# ---- predicates, orders, queue -----------------------------------------------------------------------------------
prop('C05', [
    Run('pred', 'h_orient', [(31,)], what='orientation of three points is the sign of the exact determinant', reach=(1, 2, 3, 4)),
    Run('pred', 'h_orientt', [(0,), (1,), (2,)], what='nearly collinear points', reach=(1, 2, 3, 4), fd=3000000),
    Run('pred', 'h_orient_i', [(33,), (62,)], what='orientation of two vectors is the sign of the exact determinant'),
], 'all i32 coordinates of the three points; all pairs of vectors with components in +-2^62', 'coordinate types other than i32')
prop('C06', [
    Run('pred', 'h_point', what='order of points and of segment ends', reach=(1, 2, 3, 4)),
    Run('pred', 'h_site2', [(0, 0, 31), (0, 1, 31), (1, 0, 31), (1, 1, 31)], what='order of two sites, equality', reach_any=(2,)),
    Run('pred', 'h_site3', [(a, b, c, 31) for a in (0, 1) for b in (0, 1) for c in (0, 1)], what='the order is transitive'),
], 'points and segments with any i32 coordinates; two and three sites at a time', 'coordinate types other than i32')
prop('C07', [
    Run('pred', 'h_site_ops', what='direction, indices, category bits and the class of the edge between two sites'),
], 'any i32 coordinates, indices up to 2^40, all category bits', 'coordinate types other than i32')
prop('C08', [
    Run('queue', 'h_ulp', what='comparison within a number of representable doubles', reach=(1, 2, 3)),
    Run('queue', 'h_site_circle', what='a site against the end of a circle', reach=(1, 2)),
    Run('queue', 'h_vertical', what='a circle beside a vertical segment', reach=(1, 2, 3)),
], 'all doubles but NaN; all i32 coordinates; tolerances up to 2^40 doubles', 'NaN')
prop('C09', [
    Run('queue', 'h_cmp', [(0,), (1,)], what='the order of circle events is total'),
    Run('queue', 'h_queue', [(3, 0), (4, 0), (3, 1)], what='any history of the event queue', reach_any=(2, 3)),
    Run('queue', 'h_bits', [(0, 40), (32, 70)], what='the set of inactive events'),
    Run('queue', 'h_queue', [(5, 0), (4, 1)], tier='t'),
], 'all doubles but NaN as centre and end of a circle; queue histories of up to 4 operations (5 thorough) with any order of insertion, deactivation and removal',
   'longer histories; event ids beyond 70')

# ---- whole pipeline: Builder::build and everything it calls, on symbolic inputs ---------------------------------
FD = dict(fd=3000000)
def W(what, mask, rows, tier='q', reach=(1, 2), fn='h_whole', **kw):
    return Run('whole', fn, [tuple(r) + (mask,) for r in rows], what=what, tier=tier, reach=reach, **FD, **kw)
PTS = [(3, 0, 5, 0, 1), (4, 0, 4, 0, 1), (5, 0, 3, 0, 1)]
SEG = [(1, 1, 4, 0, 1), (2, 1, 3, 0, 1), (0, 2, 3, 0, 1), (3, 1, 2, 0, 1), (0, 3, 2, 0, 1), (1, 2, 2, 0, 1), (2, 2, 2, 0, 1)]
DUP = [(3, 0, 3, 0, 0), (4, 0, 2, 0, 0), (1, 1, 3, 0, 0), (2, 1, 2, 0, 0), (0, 2, 2, 0, 0)]
CHN = [(3, 0, 3, 0, 0), (3, 0, 3, 0, 1), (3, 0, 3, 0, 2), (4, 0, 3, 0, 1), (3, 1, 3, 0, 1)]
IRR = (10, 11, 12, 13, 14)
CHT = [(4, 0, 3, 0, 0), (4, 0, 3, 0, 2), (5, 0, 3, 0, 1), (4, 1, 3, 0, 1)]
WB = ('all inputs whose coordinates come from a table of values per axis (param 3 chooses it: 0 consecutive around 0, 1 multiples of 2^28, 2 and 3 next to the ends of i32, 4 both ends, 5 2^k-1, '
      '6 steps of 1000003, 7 pairs 2^20 apart, 8 pairs 2^30 apart, 9 scattered, 10-14 irregular and different per axis) with the stated numbers of points, segments and table entries (params 0-2), up to input order and direction where param 4 is 1; ')
WO = 'more sites than listed, other coordinates; crossing or overlapping segments (not valid input)'
WA = ('the finite input tables are decided by the executor\'s own finite domain procedure, which evaluates every path condition and assertion over all joint assignments (self-tested against z3 and against the executor\'s integer and float semantics in setup.py)',)
LINE = Run('whole', 'h_line', [(2, 0), (2, 1), (3, 0), (3, 1), (4, 0), (4, 1)], what='points on one axis-parallel line, any i32 coordinates')
ONE = Run('whole', 'h_one', [(0,), (1,)], what='two points or one segment, any i32 coordinates')

prop('C10', [
    LINE, ONE,
    W('records of the diagram', 1, PTS + SEG + DUP),
    W('records, chains of segments', 1, CHN, fn='h_chain'),
    W('records, other scales', 1, [(3, 0, 4, 6, 1), (3, 0, 4, 9, 1), (1, 1, 4, 9, 1), (0, 2, 3, 6, 1), (2, 1, 3, 7, 1)]),
    W('records, irregular coordinates', 1, [(3, 0, 4, 13, 1), (1, 1, 4, 10, 1), (0, 2, 3, 11, 1), (2, 1, 3, 12, 1), (0, 3, 2, 13, 1)]),
    W('', 1, [(0, 2, 4, 0, 1), (0, 3, 3, 0, 1), (0, 2, 4, 9, 1), (1, 1, 6, 9, 1), (0, 2, 4, 7, 1), (2, 1, 4, 7, 1)], tier='t'),
    W('', 1, CHT, tier='t', fn='h_chain'),
], WB + 'two to four collinear points, two points and one segment with any i32 coordinates', WO, WA)
prop('C11', [
    LINE, ONE,
    W('every site has its cell', 2, PTS + SEG + DUP),
    W('unsorted input with duplicates', 2, [(3, 0, 4, 0, 0), (4, 0, 3, 0, 0)]),
    W('chains of segments', 2, CHN, fn='h_chain'),
    W('', 2, [(0, 2, 4, 0, 1), (0, 3, 3, 0, 1), (0, 2, 3, 0, 0)], tier='t'),
    W('', 2, CHT, tier='t', fn='h_chain'),
], WB + 'two to four collinear points, two points and one segment with any i32 coordinates', WO, WA)
prop('C12', [
    W('vertices and edges of point sets', 6, [(3, 0, 6, 0, 1), (4, 0, 4, 0, 1), (5, 0, 3, 0, 1), (3, 0, 3, 0, 0), (4, 0, 2, 0, 0)]),
    W('other scales', 6, [(3, 0, 4, m, 1) for m in (1, 2, 3, 4, 5, 6, 7, 8)] + [(3, 0, 5, 9, 1), (3, 0, 6, 8, 1), (4, 0, 3, 6, 1), (4, 0, 4, 9, 1)]),
    W('irregular coordinates', 6, [(3, 0, 4, m, 1) for m in IRR] + [(4, 0, 3, 11, 1)]),
    W('', 6, [(4, 0, 4, m, 1) for m in IRR] + [(3, 0, 6, m, 1) for m in IRR], tier='t'),
    W('', 6, [(3, 0, 8, 0, 1), (4, 0, 5, 0, 1), (5, 0, 4, 0, 1), (3, 0, 6, 7, 1), (4, 0, 4, 8, 1)], tier='t', reach=(1,)),
], WB, WO, WA)
prop('C13', [
    W('vertices and edges with segments', 6, SEG + [(1, 1, 5, 0, 1), (1, 1, 4, 9, 1), (1, 1, 4, 7, 1), (0, 2, 3, 6, 1), (0, 2, 3, 9, 1), (2, 1, 3, 6, 1)]),
    W('irregular coordinates', 6, [(2, 1, 4, 10, 1), (1, 1, 4, 11, 1), (0, 2, 3, 13, 1), (1, 2, 2, 10, 1), (3, 1, 2, 11, 1)]),
    W('', 6, [(2, 1, 4, m, 1) for m in IRR[1:]] + [(0, 2, 4, m, 1) for m in IRR] + [(0, 3, 3, m, 1) for m in (11, 13)], tier='t'),
    W('chains of segments', 6, CHN, fn='h_chain'),
    W('', 6, [(0, 2, 4, 0, 1), (0, 3, 3, 0, 1), (0, 2, 4, 9, 1), (1, 1, 6, 9, 1), (0, 2, 4, 6, 1), (2, 1, 4, 6, 1), (2, 1, 4, 0, 1), (2, 1, 4, 7, 1), (0, 2, 4, 7, 1)], tier='t'),
    W('', 6, CHT, tier='t', fn='h_chain'),
], WB, WO + '; near-degenerate sites of very different scale (the sweep orders events by a rounded double and takes some of them in the wrong order; C16 lists inputs)', WA)
prop('C14', [
    Run('whole', 'h_ids', [(0,), (1,)], what='accessors with any id', reach=(1, 2)),
    W('accessors and the thread-safe copy agree with the records', 8, [(3, 0, 4, 0, 1), (4, 0, 3, 0, 1)] + SEG),
    W('chains of segments', 8, CHN[:4], fn='h_chain'),
    W('', 8, CHN[4:] + CHT, tier='t', fn='h_chain'),
], WB + 'any 64-bit id on two diagrams', WO, WA)
prop('C15', [
    Run('whole', 'h_color', what='colours of edges and vertices, any u32'),
    W('what counts as exterior', 16, [(3, 0, 3, 0, 1), (1, 1, 4, 0, 1), (2, 1, 3, 0, 1), (0, 2, 3, 0, 1), (0, 3, 2, 0, 1), (1, 2, 2, 0, 1)]),
    W('closed chains', 16, [(3, 0, 3, 0, 1), (4, 0, 3, 0, 1), (3, 1, 3, 0, 1)], fn='h_chain', reach=(1, 2, 3)),
    W('open chains', 16, [(3, 0, 3, 0, 0), (3, 0, 3, 0, 2)], fn='h_chain'),
    W('', 16, [(5, 0, 3, 0, 1), (4, 1, 3, 0, 1)], fn='h_chain', reach=(1, 2, 3), tier='t'),
], WB + 'any two u32 colours on one diagram', WO + '; colouring the exterior with a value whose 27 lower bits are zero', WA)
prop('C16', [
    LINE, ONE,
    W('three and four points', 7, [(3, 0, 4, 1, 1), (3, 0, 4, 2, 1), (3, 0, 4, 3, 1), (3, 0, 6, 4, 1), (4, 0, 3, 1, 1), (4, 0, 3, 2, 1), (4, 0, 3, 4, 1)]),
    W('a point and a segment', 7, [(1, 1, 4, m, 1) for m in (1, 2, 3, 4, 8)]),
    W('three sites', 7, [(2, 1, 3, m, 1) for m in (1, 2, 3, 4)] + [(0, 2, 3, m, 1) for m in (1, 2, 3, 4)]),
    W('', 7, [(1, 1, 5, 4, 1), (1, 1, 5, 1, 1), (2, 1, 4, 1, 1), (3, 0, 8, 4, 1), (0, 2, 4, 1, 1)], tier='t'),
], WB + 'here the tables at the ends of the i32 range; two to four collinear points, two points and one segment with any i32 coordinates', WO, WA)
prop('C17', [
    Run('whole', 'h_perm', [(3, 0, 4, 0, 1, 1), (3, 0, 4, 0, 1, 2), (4, 0, 3, 0, 1, 1), (4, 0, 3, 0, 1, 2), (2, 1, 3, 0, 1, 5), (1, 1, 4, 0, 1, 4), (0, 2, 3, 0, 1, 13), (0, 2, 3, 0, 1, 8), (0, 3, 2, 0, 1, 22), (2, 2, 2, 0, 1, 7)],
        what='order and direction of the input', reach=(1, 2), **FD),
    Run('whole', 'h_calls', [(3, 0, 3, 0, 1), (1, 1, 3, 0, 1), (0, 2, 3, 0, 1), (2, 2, 2, 0, 1), (2, 1, 2, 0, 0)], what='input in several calls and other types', **FD),
    Run('whole', 'h_perm', [(5, 0, 3, 0, 1, 1), (0, 3, 3, 0, 1, 41), (2, 1, 3, 6, 1, 5), (0, 2, 3, 6, 1, 5)], tier='t', reach=(1, 2), **FD),
], WB, WO, WA)
# ---- around the diagram ------------------------------------------------------------------------------------------------
prop('C18', [
    Run('vis', 'h_box', [(k,) for k in (1, 2, 3, 4, 5, 6, 12, 35, 44, 345, 66, 111, 616, 1000, 2000, 1001, 1006, 2002)], what='smallest box; containment'),
    Run('vis', 'h_grow', what='growing', **FD),
    Run('vis', 'h_box', [(k,) for k in (655, 1066, 2222, 2661, 543)], tier='t'),
], 'up to three updates of each kind, all i32 coordinates; growing: all combinations of six coordinates and six percentages', 'more updates; infinities and NaN')
prop('C19', [
    Run('vis', 'h_affine', [(0, 0), (0, 1), (1, 0)], what='transformation between two boxes and back', **FD),
    Run('vis', 'h_affine', [(1, 1)], tier='t', **FD),
    Run('vis', 'h_affine0', what='no box, no transformation; the default one'),
    Run('vis', 'h_reverse', what='rounding on the way back'),
    Run('vis', 'h_segs', [(1,), (3,), (0,), (-2,)], what='integer segments scaled and moved'),
], 'boxes with corners from tables of four source and two or three destination coordinates; way back and default: all i32; segments: coordinates within 2^20', 'boxes with corners outside the tables; scales that are not whole in to_segments_offset')
prop('C20', [
    Run('vis', 'h_disc', [(0,), (1,)], what='points of a parabolic edge', reach=(1, 2, 3), **FD),
    Run('vis', 'h_disc', [(2,)], what='points of a parabolic edge', reach=(1, 2, 3), tier='t', **FD),
], 'six directions of the segment, twelve places of the point, five places of each end, three distances, two (thorough: three) transformations', 'inputs outside the tables; the end points are on the parabola, as edges of a diagram are')
prop('C21', [
    Run('conv', 'h_array', what='arrays', features='conv'),
    Run('conv', 'h_cast', what='other integer types', reach=(1, 2, 3), features='conv'),
    Run('conv', 'h_float', what='doubles to integers', reach=(1, 2, 3), features='conv'),
    Run('conv', 'h_vertex', [(0,), (1,)], what='vertices', features='conv'),
    Run('conv', 'h_other', what='points and lines of other crates', features='conv'),
    Run('conv', 'h_vother', what='vertices as points of other crates', features='conv'),
], 'all i32 and i64 values, all doubles', 'other integer types than i32 and i64')
prop('C22', [
    Run('read', 'h_read', [(0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 3), (2, 1, 2), (1, 2, 2), (1, 1, 9)], what='well-formed text'),
    Run('read', 'h_range', [(i,) for i in range(6)], what='numbers around the ends of the range', reach=(1, 2, 3)),
    Run('read', 'h_text', [(4, 6, h) for h in range(6)] + [(4, 8, 3)], what='any text over a few letters', **FD),
    Run('read', 'h_read', [(2, 2, 3), (3, 2, 2)], tier='t'),
    Run('read', 'h_text', [(5, 8, 4), (5, 8, 1), (4, 12, 3), (4, 12, 1)], tier='t', **FD),
], 'up to three points and two segments with numbers of up to nine digits, all digits and signs; all texts of four letters out of six (one: eight) after six beginnings', 'longer texts, other letters, numbers of ten and more digits apart from those around the ends of the range',
   ('printing to the terminal has no effect on the result (those calls are skipped)',))
