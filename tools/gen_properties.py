#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
B="src/curve/basis/mod.rs"; C="src/curve/mod.rs"; K="src/curve/knots/mod.rs"; KM="src/curve/knots/methods.rs"
G="src/curve/generation/mod.rs"; PM="src/curve/parameters/methods.rs"; PT="src/curve/points/mod.rs"
I="src/curve/points/methods/interpolation.rs"; F="src/curve/points/methods/fit/mod.rs"
FL="src/curve/points/methods/fit/loose.rs"; FF="src/curve/points/methods/fit/fixed.rs"
MI="src/manipulation/insert.rs"; MS="src/manipulation/split.rs"; MR="src/manipulation/reverse.rs"; MM="src/manipulation/merge.rs"
VALID=("A valid curve is one with degree p >= 1, n+1 >= p+1 control points of any dimension and a clamped, normed, sorted "
       "knot vector whose interior knots lie in (0,1) with multiplicity at most p+1.")
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)

prop("C01","Evaluation returns the point of the mathematical B-spline",
 "For every valid curve and every parameter u in [0,1], evaluating the curve returns the point the B-spline definition gives for its degree, knots and control points. "
 "At an interior knot the value is the limit from the right and at u = 1 the limit from the left, so the curve is defined on the whole closed interval whatever the spacing and multiplicity of its knots.",
 ["inputs","configurations"],"every degree, dimension, control polygon, knot spacing/multiplicity pattern and every u in [0,1], including the knots themselves and their floating point neighbours",
 "The tests evaluate five or six hand-picked curves at a few u; nearly all use uniform simple knots, so spacing, multiplicity and 'u on a knot' combinations are not reached.",
 [C,B,K],[("sum over the non-vanishing basis functions","Curve::evaluate_derivative"),("Cox-de Boor-Mansfield recursion","curve::basis::basis"),("span lookup","Knots::find_idx")],
 ["Curve::evaluate","Curve::evaluate_derivative(u,0)"])
prop("C02","Every derivative order is the true derivative of the curve",
 "For every valid curve, every order k from 0 to the degree and every u in [0,1], the k-th derivative reported by the curve equals the k-th derivative of the curve it evaluates (right derivative at interior knots, left derivative at u = 1). "
 "For orders above the degree the derivative is the zero vector of the curve's dimension.",
 ["inputs","configurations"],"every order k (including k > p), degree, knot vector with repeated and uneven knots, control polygon and u in [0,1]",
 "The tests check a derivative at exactly two points, both with value zero; no test relates a derivative to the curve it is derived from.",
 [C,PT,K,B],[("derivative control points","ControlPoints::derive"),("derivative knot vectors","Knots::derive"),("evaluation of the k-th derivative","Curve::evaluate_derivative")],
 ["Curve::evaluate_derivative"],[("Uk/Pk","knot vectors and control points of all derivative orders",K)])
prop("C03","The derivative curve is a full curve equal to the derivative",
 "For every valid curve and every k up to its degree p, the derivative curve of order k has degree p-k, takes at every u the value of the k-th derivative of the original, and leaves the original unchanged. "
 "It is itself a complete curve: all its own derivatives up to order p-k can be evaluated and agree with the higher derivatives of the original.",
 ["inputs","configurations","histories"],"every valid curve, every k in 0..=p, every order j in 0..=p-k on the result, chained derivative curves, every u in [0,1]",
 "No test builds a derivative curve at all.",
 [C,PT,K],[("derivative curve construction","Curve::get_derivative_curve")],["Curve::get_derivative_curve","Curve::evaluate_derivative"])
prop("C04","Evaluation is total on [0,1] and refuses everything else",
 "For every valid curve and every derivative order, evaluation succeeds exactly for parameters in the closed interval [0,1] and never panics; for any other parameter, NaN and infinities included, it returns the out-of-bounds error carrying that parameter and the bounds 0 and 1. "
 "A successful result always has the dimension of the curve.",
 ["inputs","configurations"],"every f64 class of u (ends, neighbours of the ends and of every knot, negative zero, subnormals, huge, infinite, NaN) x every k including k > p x every valid curve",
 "Two out-of-range values are tested on one curve, order 0 only; special float values and higher orders never.",
 [C],[("range check","Curve::evaluate_derivative")],["Curve::evaluate","Curve::evaluate_derivative"])
prop("C05","Basis functions form a non-negative local partition of unity",
 "For every valid knot vector, every derivative order k and every u in [0,1], the basis functions of the k-th derivative spline are non-negative, sum to one, and the i-th one vanishes outside the knots from its own first to its last. "
 "Each of them equals the value given by the B-spline definition, the last interval being closed at u = 1.",
 ["inputs","configurations"],"every degree, knot pattern, order k, index i, u in [0,1]",
 "The tests tabulate one degree-3 knot vector (and its first derivative vector) at seven parameters.",
 [B,K],[("basis recursion","curve::basis::basis"),("per-order lookup","Knots::evaluate")],["Knots::evaluate","curve::basis::basis"])
prop("C06","Curves respect endpoints, convex hull, locality and affine maps",
 "Every valid curve starts at its first and ends at its last control point, every point of a knot span lies in the bounding box of the p+1 control points governing that span, and moving one control point changes the curve only on the knots that point influences. "
 "Scaling, translating or permuting the coordinates of all control points does the same to every evaluated point.",
 ["inputs","configurations"],"every valid curve, every control point index, every u in [0,1], scalings over many magnitudes",
 "The tests check end points of three curves; locality, hull and equivariance are never tested.",
 [C,B,PT],[("evaluation","Curve::evaluate_derivative"),("basis support","curve::basis::basis")],["Curve::evaluate"])
prop("C07","Knot insertion never changes the curve",
 "Inserting a knot at any u in (0,1) into a valid curve, one or several times up to multiplicity p+1 and in any order with other insertions, leaves every point and every derivative of the curve unchanged. "
 "Each insertion adds exactly one knot equal to u at its sorted place and exactly one control point, and keeps degree, dimension and the other knots.",
 ["inputs","histories","configurations"],"every valid curve (also with repeated knots before, at and after u), every u in (0,1), every sequence of insertions",
 "Tests insert only at u = 1/2 into curves with at most that one interior knot, in 1-D; other places, several distinct or repeated knots and derivatives after insertion are untested.",
 [MI,C,K],[("Boehm insertion","manipulation::insert::insert"),("span lookup","Knots::find_idx"),("derivative refresh","Curve::calculate_derivatives")],
 ["Curve::insert","Curve::insert_times","manipulation::insert::insert"])
prop("C08","Refused insertions and splits report the reason and change nothing",
 "Inserting or splitting at a parameter that is not strictly between 0 and 1 (NaN included) returns the out-of-bounds error; inserting at a knot that already has multiplicity p+1, and splitting at such a knot, returns the multiplicity error. "
 "A refused single insertion or split leaves the curve exactly as it was, and a multiple insertion that is refused midway leaves a valid curve of unchanged shape.",
 ["inputs","histories"],"every valid curve reachable by insertions, every refused parameter class",
 "Only split at exactly 0 and 1 is tested; refusals of insertion, NaN and the multiplicity refusals are untested.",
 [MI,MS,C],[("range and multiplicity checks","manipulation::insert::insert"),("range and multiplicity checks","manipulation::split::split_and_normalize")],
 ["Curve::insert","Curve::insert_times","Curve::split","split_and_normalize"])
prop("C09","Splitting yields two curves that together retrace the original",
 "Splitting a valid curve at any u in (0,1) whose knot multiplicity is at most p gives two clamped curves of the same degree and dimension, the first tracing the original over [0,u] and the second over [u,1], including all derivatives up to the change of parametrization. "
 "Each part's knots are mapped to [0,1] when normalization is requested for it and stay in the original parametrization when not; the original is not modified.",
 ["inputs","configurations","histories"],"every valid curve, every admissible u (on knots of every multiplicity, between knots, next to the ends), the four normalization choices",
 "Tests split one uniform degree-2 curve at u = 1/2 and next to its ends.",
 [MS,K],[("p-fold insertion and cutting","split_and_normalize"),("knot normalization","knots::normalize")],["Curve::split","split_and_normalize"])
prop("C10","Reversing maps u to 1-u for the curve and all derivatives",
 "After reversing, evaluating at u gives what the curve gave at 1-u, and the k-th derivative is (-1)^k times the former one at 1-u, for all orders. "
 "The knots stay sorted, clamped and normed, and reversing twice gives back the original curve; the method, the free function and the copying variant agree.",
 ["inputs","histories","configurations"],"every valid curve, also after other manipulations, every u, every order",
 "One symmetric uniform curve is reversed, and only its order-0 knots and points are compared.",
 [MR,C,K,PT],[("knot reversal","Knots::reverse"),("control point reversal with sign","ControlPoints::reverse")],["Curve::reverse","manipulation::reverse::{reverse,reversed}"])
prop("C11","Merging joins two curves smoothly and only moves their meeting ends",
 "Merging (appending, prepending) two valid curves of equal degree p and dimension, with any numbers of segments, gives one valid curve with p control points fewer than both together, whose first half carries the knots of the first and whose second half those of the second curve, joined by a simple knot at 1/2. "
 "Each half is the corresponding input curve, up to the change of parametrization, with only its p control points next to the joint moved, so the merged curve is p-1 times continuously differentiable at the joint.",
 ["inputs","configurations","histories"],"every pair of valid curves (equal or different segment counts, repeated and uneven knots, any distance between the meeting ends), every degree and dimension",
 "Tests merge mirrored curves with equal segment counts of degree 1 and 2 only.",
 [MM,C],[("KKT system and knot adjustment","manipulation::merge::merge_with_constraints")],["manipulation::merge::merge","Curve::append","Curve::prepend"])
prop("C12","Merging moves control points by the least possible amount",
 "Among all ways to displace the p meeting control points of either curve so that the joint becomes p-1 times continuously differentiable (and given constraints hold), merging uses the one with the smallest sum of squared displacements. "
 "In particular merging two curves that already join smoothly moves nothing, so the halves of a curve split at 1/2, where it is p-1 times continuously differentiable, merge back to the original curve.",
 ["inputs","configurations"],"every pair of valid curves and every admissible constraint set; every curve split at 1/2",
 "Tests fix expected control points of four tiny mirrored examples with degree at most 2.",
 [MM],[("least-displacement linear system","solve_linear_equation_system")],["manipulation::merge::{merge,merge_from,merge_to}","Curve::append","Curve::append_constrained"])
prop("C13","Constrained merging keeps each curve's constrained points in place",
 "When curves are merged with constraint parameters, the part of the merged curve coming from each curve still passes, at the corresponding parameter, through the point that curve had at each of its own constraint parameters, as long as the constraints are compatible and fewer than p in total. "
 "This holds for appending and for prepending (each curve's constraints apply to that curve), and for the variants that keep the end of the first or the start of the second curve fixed; smoothness at the joint is unaffected.",
 ["inputs","configurations"],"every pair of curves, every set of fewer than p constraint parameters on either curve, all four entry points",
 "Two mirrored degree-2 examples are tested with one end constraint; general parameters, several constraints, append_constrained and prepend_constrained never.",
 [MM,C],[("constraint rows","calculateGV / calculateHW"),("entry points","Curve::{append,prepend}_constrained, merge_from, merge_to")],
 ["Curve::append_constrained","Curve::prepend_constrained","merge_from","merge_to"])
prop("C14","Incompatible merges are refused with the matching reason",
 "Merging curves of different degree, of different dimension, with a knot vector that is not clamped, or one that does not span [0,1] is refused by the merging functions with the matching error and never produces a curve; constraints totalling p or more are refused as well. "
 "The inputs, including the curve an in-place append or prepend was called on, are left exactly as they were.",
 ["inputs","configurations"],"every kind and every pair of kinds of incompatibility, either operand, every entry point",
 "No merge refusal is tested.",
 [MM,C],[("admission checks","merge_with_constraints")],["manipulation::merge::*","Curve::{append,prepend}","Curve::{append,prepend}_constrained"])
prop("C15","Interpolation passes through every data point",
 "A curve generated by interpolation has the requested degree and as many control points as data points, and at the i-th of the equally spaced parameters i/m it equals the i-th data point, for every degree between 1 and the number of data segments m. "
 "The lower-level interpolation with any parameters and matching knots likewise reproduces every data point at its parameter.",
 ["inputs","configurations"],"every data set (including repeated, collinear and huge/tiny points), dimension, degree",
 "Only points on a straight line with degrees 1 and 2 are interpolated.",
 [I,G],[("collocation system","interpolation::interpolate"),("generation","generate(Interpolation)")],["generate(Interpolation)","interpolation::interpolate"])
prop("C16","Loose-end fitting returns a least-squares optimum",
 "A loose-end fit returns a curve with the requested degree and number of segments whose control points minimize the sum of squared distances to the data points at the equally spaced parameters plus, if a penalization is given, lambda times the sum of squared kappa-th differences of the control points. "
 "With as many control points as data points and no penalization it reproduces the data.",
 ["inputs","configurations"],"every data set, degree, admissible segment count, lambda >= 0 and kappa >= 1",
 "Fits of straight lines and one zig-zag with n = m are tested; proper approximation n < m and the effect of lambda and kappa are not.",
 [FL,F,G],[("normal equations","fit::loose::fit / fit::solve_normal_equations"),("difference operator","fit::difference_operator")],["generate(LeastSquaresFit)","fit::loose::fit"])
prop("C17","Fixed-end fitting keeps both ends and is optimal inside",
 "A fixed-end fit returns a curve that starts exactly at the first and ends exactly at the last data point and whose remaining control points minimize the sum of squared distances to the inner data points plus, if given, lambda times the sum of squared kappa-th differences of those inner control points. "
 "It succeeds for every admissible segment count down to a single segment.",
 ["inputs","configurations"],"every data set, degree, admissible segment count, lambda >= 0 and kappa >= 1",
 "Fixed-end fits are tested only with n = m on a zig-zag and one symmetric point of a penalized fit.",
 [FF,F,G],[("reduced normal equations","fit::fixed::fit"),("difference operator","fit::difference_operator")],["generate(LeastSquaresFit)","fit::fixed::fit"])
prop("C18","Inadmissible generation requests are refused, never panic",
 "Generating a curve with degree 0, with a degree above the number of segments, with more fit segments than data segments, with a negative (or NaN) penalization weight, with a difference order too high for the number of control points, with a penalization on non-uniform knots or with a parameter count differing from the data is refused with the corresponding error value. "
 "Every other request on non-degenerate data succeeds with the requested degree, dimension and segment count; no request panics.",
 ["inputs","configurations"],"every generation method x degree x data count x segment count x method x penalization class",
 "Only degree 0 for the knot generators is tested.",
 [G,KM,F,C],[("input checks","knots::methods::inputCheck, fit::input_checks, fit::solve_normal_equations, Curve::new")],["generate","knots::generate","fit::loose::fit","fit::fixed::fit"])
prop("C19","Parametrizations run from 0 to 1 in proportion to the data",
 "For data points of which consecutive ones differ, every parametrization assigns one parameter per data point, the first exactly 0, the last exactly 1, never decreasing. "
 "Successive increments are proportional to 1 (equally spaced), to the distance of consecutive points (chord length) and to the square root of that distance (centripetal).",
 ["inputs","configurations"],"every number of points, dimension, point set with positive total length, all three methods",
 "Five-point and three-point 1-D examples are tabulated.",
 [PM,"src/curve/parameters/mod.rs"],[("parameter methods","parameters::methods::*")],["parameters::generate","parameters::methods::*"])
prop("C20","Generated knot vectors are valid and follow the chosen rule",
 "For every degree p >= 1 and segment count n >= p, each knot generator returns n+p+2 sorted knots, p+1 zeros first and p+1 ones last, with all n-p interior knots strictly inside (0,1) for strictly increasing parameters. "
 "The interior knots are equally spaced (uniform), the averages of p consecutive parameters (averaging), or distributed over the given parameters such that every span contains a parameter (de Boor, eqs. 9.68-9.69 of Piegl and Tiller for any number of parameters above n).",
 ["inputs","configurations"],"every p, n, and (for de Boor and averaging) every strictly increasing parameter sequence, also with more parameters than control points for de Boor",
 "Tabulated for p <= 3 and n <= 4 with equally spaced parameters of matching count.",
 [KM],[("knot methods","knots::methods::{uniform,averaging,de_boor}")],["knots::generate","knots::methods::*"])
prop("C21","Building a curve from given data is faithful and checked",
 "A curve built from given control points keeps these points bit for bit, uses exactly the given or generated knots, has the requested degree, and offers derivatives up to that degree. "
 "Control points and knots that do not belong together (too few points for the degree, a knot count other than n+p+2, knots of another degree than requested) are refused with an error instead of yielding a curve.",
 ["inputs","configurations"],"every combination of degree, point count, knot count, knot source",
 "Tests only build matching combinations.",
 [C,G],[("constructor checks","Curve::new"),("manual generation","generate(Manual)")],["Curve::new","generate(Manual)"])
prop("C22","Span lookup brackets the parameter",
 "For every valid knot vector, order k and u in [0,1], the lookups return a domain knot bracketing u: 'left' the greatest knot below u and 'left or equal' the greatest not above u (both at least the first and below the last domain knot), 'right or equal' the smallest not below u and 'right' the smallest above u (both at most the last; 'right' above the first). "
 "No lookup panics for any order up to the degree.",
 ["inputs","configurations"],"every knot multiplicity pattern, every order k in 0..=p, every u in [0,1] on, next to and between knots, all four comparators",
 "Tested on one uniform degree-1 knot vector away from the ends and without repeated knots.",
 [K],[("linear scans","Knots::find_idx")],["Knots::find_idx"])
prop("C23","Knot vector queries and rescaling agree with the knots",
 "For every valid knot vector the domain and interior views, counts, multiplicities, the sorted/clamped/normed/uniform tests and the derivative knot vectors (the knots without the first and last k) agree with the knots themselves, for every order up to the degree. "
 "Normalizing a clamped knot vector over any interval maps it affinely onto [0,1] with exact ends, rescaling maps one interval affinely onto another, and all derivative knot vectors follow.",
 ["inputs","configurations","histories"],"every degree, knot pattern, interval, order k; sequences of rescale/normalize",
 "One example per function, degree 1-3, small and uniform.",
 [K],[("views and predicates","knots::{Knots, is_sorted, is_clamped, is_normed, is_uniform}"),("rescaling","knots::normalize / Knots::rescale")],["Knots::*","knots::{is_*,normalize,normalized}"])
prop("C24","Any sequence of manipulations keeps the curve valid and exact",
 "After any sequence of insertions, reversals, splits (continuing with either part), merges and derivative steps, starting from any generated curve, the result is a valid, internally consistent curve: knot and control point counts match, knots are sorted, clamped and normed, and all derivative data belong to the current shape. "
 "Its points and derivatives are those obtained by performing the same geometric operations on the exact curve.",
 ["histories","inputs"],"every operation sequence up to the explored depth over an alphabet that includes positions on existing knots, next to the ends and partners of other sizes",
 "Tests apply one operation (or repeat the same insertion) to a fresh curve; no test combines different operations.",
 [C,MI,MS,MR,MM,K,PT],[("derivative refresh after manipulation","Curve::calculate_derivatives"),("in-place reversal of all orders","Knots::reverse / ControlPoints::reverse")],["Curve::*"],
 [("Curve","knots and control points of all derivative orders",C)])
prop("C25","Queries are pure and operations leave their inputs alone",
 "Evaluating, differentiating and looking up never change a curve, and their results do not depend on which other queries or curves were evaluated before, nor on the order or repetition of queries. "
 "Operations that return a new curve (split, merge, copying reversal, derivative curve, fitting) leave their operands bitwise unchanged, clones are independent, and repeating an operation on equal inputs gives bitwise equal results.",
 ["histories","inputs"],"every ordered sequence of queries up to the explored length over several curves and parameters, every operation on every explored curve",
 "Each test asks a single fresh object; query order, interleaving between curves and input preservation are not observed.",
 [C,K,MS,MM,MR],[("no interior state in queries","Curve::evaluate_derivative, Knots::find_idx"),("operations work on clones","split_and_normalize, merge_with_constraints")],["Curve::*","Knots::*"])
prop("C26","Point and knot containers answer for every order and follow edits",
 "A container of control points, data points, knots, parameters or constraints always reports the count, number of segments, dimension and single points of the matrix or vector it holds, and editing it through its mutable views changes exactly the addressed entries. "
 "Deriving control points over any knot vector of matching size replaces all earlier derivative orders by exactly the orders 0 to the degree of those knots, deriving knots again restores their derivative orders from the knots, and reversing reverses every available order, negating the odd ones. "
 "A curve whose points or knots were edited or rescaled and then derived again is the curve of the edited parts.",
 ["histories","inputs"],"every sequence of derive (over knots of several degrees, repeated, unnormed or unclamped), reverse, edit and clone up to the explored length, every container size and dimension",
 "Tests read count, segments and dimension of one underived 2-D example; nothing is read after deriving twice, reversing derived points or editing.",
 [PT,K,"src/types.rs",PM],[("derivative orders","ControlPoints::derive"),("reversal of all orders","ControlPoints::reverse"),("views","Points, VecHelpers")],["ControlPoints::*","DataPoints::*","Knots::{vector_mut,derive,rescale,normalize}","types::VecHelpers"],
 [("Pk","control points of all derivative orders",PT)])
prop("C27","Every operation is affinely equivariant and treats coordinates alone",
 "Insertion, splitting, reversal, derivative curves, merging (plain and constrained), interpolation and fitting compute each coordinate from that coordinate alone: the result for several coordinates is, coordinate by coordinate and to the precision of that coordinate's own magnitude, the result of each coordinate by itself. "
 "Scaling by any factor, translating, permuting or negating the coordinates of all operands does the same to the result (derivatives ignore the translation); with parametrizations by chord lengths this holds for similarity transformations. "
 "Generating from the data in opposite order on symmetric knots gives the reversed curve.",
 ["inputs","configurations"],"every operation x every transformation x operands with coordinates of equal and of widely different magnitudes",
 "Tests compare single results with tabulated numbers of order one; no test relates two runs.",
 [C,MI,MS,MM,I,F,FL,FF,PM],[("per-coordinate linear algebra","solve_refined, interpolate, fit"),("corner cutting","insert")],["Curve::*","generate"])
prop("C28","Independent operations commute",
 "On every valid curve, performing two independent operations in either order ends in the same curve: insertions at different places, multiple and repeated insertions, insertion and reversal (at 1-u), insertion and taking a derivative curve, splitting at two places, splitting after filling up the knot, splitting and reversal (parts exchanged), splitting and derivative (scaled by the length of the part), derivative and reversal (sign for odd orders), derivatives in steps. "
 "Appending b to a equals prepending a to b, equals the reversal of appending the reversed a to the reversed b, with the same points kept, and a knot inserted in a before the displaced part may as well be inserted after merging.",
 ["histories","inputs"],"every pair of operations from the alphabet in both orders, at every pair of positions, on every curve of the explored space",
 "No test performs two different operations on one curve.",
 [MI,MS,MR,MM,C],[("state carried from one operation to the next","Knots, ControlPoints"),("mirror-symmetric merge equations","merge_with_constraints")],["Curve::*"],
 [("Curve","knots and control points of all derivative orders",C)])
prop("C29","Curves on a part of [0,1] or with unclamped ends are full curves",
 "A curve whose knots have the domain [a,b] inside [0,1] (such as a part split off without normalization), with ends that may be unclamped so that further knots lie before a or after b, behaves on its domain like any other: at every u in [a,b] it and all its derivatives have the values of the B-spline definition (right limits at knots, left limit at b), insertion and splitting strictly inside the domain keep the shape, reversal maps u to 1-u and the domain to [1-b,1-a], derivative curves are the derivatives, and normalizing maps all its knots affinely onto [0,1]. "
 "Insertions and splits at parameters that are not strictly inside the domain are refused with the out-of-bounds error and change nothing.",
 ["inputs","histories"],"every domain, kind of ends, interior multiplicity pattern, degree, and operation sequence up to the explored depth, positions recomputed from every state",
 "Tests evaluate clamped curves on [0,1] only; unnormalized parts are tested at three points, nothing is done with them, and no unclamped curve is ever evaluated.",
 [C,K,B,MI,MS,MR],[("closing of the last interval","basis::basis"),("domain","Knots::{domain,find_idx,normalize}"),("bounds of manipulations","insert, split_and_normalize")],["Curve::*","Knots::*"],
 [("Curve","knots and control points of all derivative orders",C)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
