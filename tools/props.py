#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: one table, so that they stay in step."""
import json, os, glob, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, S = "inputs", "histories", "schedules"
GEN = "tests use a handful of literal values and at most two or three sizes; the claim ranges over every value and many shapes, including empty, single-item and long ones"
P = []
def p(id, title, statement, over, text, files, mech, why=GEN, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
F = "include/dataframe/functional/"
p("C01", "A Serie keeps its shape and values through construction, copy and resize",
  "A Serie built from values reports the itemSize and dimension it was given, as many items as the values fill completely, and holds exactly those values in order; built from a count it is zero-filled. Copies (copy, assignment, clone, storage in a container) have the same itemSize, count, dimension and values and are independent of the original afterwards. Re-counting a Serie keeps itemSize and dimension and yields the requested number of zeroed items.",
  [I, H], "every itemSize, count, dimension and every double value (NaN, infinities and -0.0 included), every copy operation, followed by writes to either side",
  ["include/dataframe/Serie.h", "src/Serie.cxx"], [("constructors, operator=, clone, reCount, toSerie", "src/Serie.cxx")],
  state=[("count_/itemSize_/dimension_/s_", "shape and flat storage, count_*itemSize_ == s_.size()", "include/dataframe/Serie.h")])
p("C02", "Item access returns what was stored there and reports bad indices",
  "Reading an item or a single value returns what was last written at that place, and a write changes that place and nothing else. Any index outside the Serie, and any item whose number of components differs from the itemSize, is reported with std::invalid_argument and leaves the Serie unchanged; no access touches memory outside the Serie.",
  [I, H], "every 32-bit index, every value, every itemSize/count in bounds, sequences of writes",
  ["include/dataframe/inline/Serie.hxx", "src/Serie.cxx"], [("get/set/value/scalar/setValue/setScalar", "include/dataframe/inline/Serie.hxx")],
  why="tests read a few valid indices; out-of-range reads are silent unless a sanitizer happens to see them")
p("C03", "A Dataframe is a faithful named store of Series",
  "After any sequence of add/set/create/del/clear/setCount and look-ups, a name resolves to the Serie last stored under it, other names are unaffected, and names never stored or deleted are reported as absent (a constant look-up then gives an empty invalid Serie and changes nothing). Changing the count to another positive value re-counts every stored Serie. Looking a Serie up by identity gives the name it is stored under, and no name for a copy.",
  [H, I], "every history of operations over several names up to the bound, with arbitrary contents",
  ["include/dataframe/Dataframe.h", "src/Dataframe.cxx", "src/utils/nameOfSerie.cxx"], [("std::map of name to Serie", "src/Dataframe.cxx")],
  why="the tests add a few names once and never delete, replace or re-count; histories are not explored",
  state=[("series_", "name to Serie", "include/dataframe/Dataframe.h"), ("count_", "common count", "include/dataframe/Dataframe.h")])
p("C04", "map applies the callback to every item once, in order",
  "Mapping a callback over one Serie, or over several Series of equal count, calls it exactly once per item in increasing index order with the item (or the items at the same index) and that index; item i of the result is what the callback returned for index i, so the count is kept and the itemSize is that of the returned items. Series of different counts are rejected with std::invalid_argument, and returned arrays of differing sizes are reported by an exception. The free, member, make_map and apply forms agree.",
  [I], "every callback (modelled as an arbitrary function of item and index), every value, one to three Series of mixed itemSize",
  [F + "map.h", F + "utils/apply.h", "include/dataframe/inline/Serie.hxx"], [("map / __map__", F + "map.h"), ("countAndCheck", "include/dataframe/utils.h")])
p("C05", "forEach visits every item exactly once, in order",
  "forEach over one Serie, or over several Series of equal count, calls the callback exactly once per item in increasing index order with that item (or the items at the same index) and its index. A callback whose kind does not match (scalar callback on items with several components, array callback on scalar items) and Series of different counts are rejected with std::invalid_argument before any call.",
  [I], "every value, one to three Series of mixed itemSize, scalar, array and generic callbacks", [F + "forEach.h"], [("forEach", F + "forEach.h")])
p("C06", "reduce is the left fold over the items in order",
  "Reducing a Serie with a callback and an initial value gives the left fold g(...g(g(init, item0, 0), item1, 1)..., last item, its index): every item enters exactly once, in order, with its index, and an empty Serie gives the initial value. With an array-valued accumulator the result is a Serie holding that one item. Free, member and make_reduce forms agree.",
  [I], "every callback (arbitrary function), every initial value and every content", [F + "reduce.h"], [("reduce", F + "reduce.h")])
p("C07", "Filtering keeps exactly the matching items, in order",
  "Filtering one Serie (filter, cut, findAll, member and make_ forms) gives exactly the items for which the predicate holds, unchanged, in their original order, with the itemSize and dimension of the source. Filtering several Series together (filter, filterAll) keeps the same indices in each of them; different counts are rejected with std::invalid_argument.",
  [I], "every predicate (every subset of the items) and every content", [F + "filter.h", F + "utils/cut.h", F + "find.h"], [("filter/__filter__/filterAll/findAll/cut", F + "filter.h")],
  why="some of these tests contain no assertion at all; the others use one predicate on one Serie")
p("C08", "reject and partition are the exact complement of filter",
  "reject and rejectAll keep exactly the items for which the predicate is false, unchanged and in order. partition returns the matching and the non-matching items, each in original order with the itemSize and dimension of the source, so that together they contain every item exactly once.",
  [I], "every predicate (every subset of the items) and every content, one or several Series", [F + "utils/reject.h", F + "utils/partition.h"], [("reject/rejectAll/partition", F + "utils/reject.h")])
p("C09", "find returns the first matching item",
  "find returns the item with the smallest index for which the predicate holds, with that index and found set; when no item matches, found is false. The predicate is not evaluated after the first match, and a predicate of the wrong kind is rejected with std::invalid_argument.",
  [I], "every predicate and every content", [F + "find.h"], [("find/makeFind", F + "find.h")], why="the find test has no assertion on the index and one predicate per Serie")
p("C10", "zip joins components item by item and unzip undoes it",
  "Zipping Series of equal count gives items made of the components of the inputs in argument order, for zip, zipVector and make_zip alike; unzipping that with the original itemSizes gives back the original itemSizes and values exactly. Invalid Series, different counts, an empty list and itemSizes that do not sum to the zipped itemSize are rejected with std::invalid_argument.",
  [I], "every content, one to four Series, every mix of itemSizes in bounds", [F + "utils/zip.h", F + "utils/unzip.h"], [("zip/zipVector/unzip", F + "utils/zip.h")],
  why="the zip test has no assertion; unzip is checked on one literal Serie")
p("C11", "concat and merge keep every item of every Serie, in the stated order",
  "Concatenating Series (concat, merge) gives all the items of the first, then all of the second, and so on; interleaving takes item i of each Serie that still has one, for increasing i. Every input item appears exactly once and unchanged, so counts add up; Series of different itemSize (and for concat invalid or no Series) are rejected with std::invalid_argument.",
  [I], "every content, one to four Series of any counts, including empty ones", [F + "merge.h", F + "utils/concat.h"], [("merge/concat", F + "merge.h")])
p("C12", "partition_n splits into contiguous, balanced parts that cover everything",
  "Splitting Series into n parts gives contiguous parts in order whose concatenation is the original, whose itemSize and dimension are those of the source and whose sizes differ by at most one, the larger first; several Series are split at the same places into exactly n parts each. n = 0 and different counts are rejected with std::invalid_argument.",
  [I], "every count and n in bounds, every content", [F + "utils/partition_n.h"], [("partition_n", F + "utils/partition_n.h")])
p("C13", "parallel_execute gives the sequential result for every schedule",
  "For an item-wise function, executing it over a Serie with any number of cores gives exactly the Serie the function gives sequentially, in the same order, whatever order the jobs run in and whatever the count, including fewer items than cores and none. A job that throws, or that returns a different number of items than it was given, is reported as an exception to the caller and nothing is lost silently; zero cores is rejected with std::invalid_argument. Jobs share no mutable state.",
  [S, I], "every execution order of the jobs, every item-wise function, every count and number of cores in bounds", [F + "utils/parallel_execute.h", F + "utils/partition_n.h", F + "utils/concat.h"],
  [("parallel_execute: partition, async, ordered collection", F + "utils/parallel_execute.h")], why="there is no test of parallel_execute; a test sees one schedule")
p("C14", "pipe and compose apply the steps in the stated order, once each",
  "pipe(x, f1, ..., fn) and the pipeline built by make_pipe give fn(...f1(x)), each step being applied exactly once, for Series and other values; a pipeline can be re-used and is not changed by running it. compose(f1, ..., fn) gives f1(...fn(x)).",
  [I], "arbitrary functions for the steps, two to five steps, repeated use", [F + "pipe.h", F + "utils/compose.h"], [("pipe/make_pipe/compose", F + "pipe.h")])
p("C15", "A memoized function is indistinguishable from the function",
  "For every sequence of calls with arbitrary Series (equal or different values, shapes, dimensions, NaN and signed zeros included) and cache clearings, a memoized function returns exactly what the function itself returns for that argument. A repeated argument is not recomputed until the cache is cleared.",
  [H, I], "every history of calls up to the bound, every argument, the function being arbitrary", [F + "utils/memoize.h"], [("Memoized: cache key", F + "utils/memoize.h")], why="the memoize test has no assertion",
  state=[("cache", "argument key to result", F + "utils/memoize.h")])
p("C16", "sort returns an ordered permutation of the items",
  "Sorting a Serie gives a Serie of the same itemSize, dimension and count whose items are a permutation of the input items (components stay together) and are in non-decreasing order: numerical for scalars, lexicographic for vectors, or the order of the given comparator. The input is unchanged.",
  [I], "every content without NaN, every strict weak order modelled by arbitrary keys", [F + "utils/sort.h"], [("sort", F + "utils/sort.h")])
p("C17", "Sums, differences, scaling and weighted sums act component by component",
  "add, sub, negate, scale and weightedSum give, for every component of every item, the sum, difference, opposite, multiple or weighted sum of the corresponding components of the inputs; itemSize and count are kept. Series of different itemSize or count, a wrong number of scales or weights and an empty list are rejected with std::invalid_argument.",
  [I], "every value, one to four Series, every itemSize", ["src/functional/math/add.cxx", "src/functional/math/sub.cxx", "src/functional/math/negate.cxx", "src/functional/math/scale.cxx", "src/functional/math/weightedSum.cxx", F + "math/add.h", F + "math/sub.h"], [("add/sub/negate/scale/weigthedSum", "src/functional/math")])
p("C18", "Products and quotients act component by component",
  "mult multiplies every component by the number, or by the corresponding component or per-item factor of the multiplier; div divides every component by the number or by the divider's value for that item, where a divider smaller in magnitude than 1e-10 gives 0. itemSize and count are kept; incompatible counts or itemSizes are rejected with std::invalid_argument.",
  [I], "every value, every itemSize", ["src/functional/math/mult.cxx", "src/functional/math/div.cxx"], [("mult/div", "src/functional/math")])
p("C19", "dot, cross and norm follow their algebraic definitions item by item",
  "dot gives the sum of products of corresponding components, cross the right-handed cross product, norm2 the sum of the squares of the components and norm its non-negative root, one value (or vector) per item with the count kept; dot with a fixed vector uses it for every item. Incompatible Series are rejected with std::invalid_argument, never read past their end.",
  [I], "every value, every itemSize in bounds", ["src/functional/algebra/dot.cxx", "src/functional/algebra/cross.cxx", "src/functional/algebra/norm.cxx"], [("dot/cross/norm/norm2", "src/functional/algebra")])
p("C20", "minMax bounds every component tightly and normalize maps onto the unit range",
  "minMax gives for each component the smallest and the largest value occurring in it (finite values). Normalizing a scalar Serie maps each value v to (v-min)/(max-min), so that the smallest goes to 0 and the largest to 1; normalizing a vector Serie divides each item by its length. Counts and itemSizes are kept, an empty Serie gives an empty one and an invalid one is rejected.",
  [I], "every finite value, every itemSize in bounds", ["src/functional/math/minMax.cxx", "src/functional/math/normalize.cxx"], [("minMax/normalize", "src/functional/math")])
p("C21", "Determinant, inverse and transpose of matrix Series are the mathematical ones",
  "For each item, det gives the determinant (2x2 and 3x3, symmetric or full storage), inv gives the matrix whose product with the item is the identity or reports a singular item with an exception, and transpose exchanges rows and columns so that transposing twice gives the item back. Unsupported itemSizes are reported, not computed.",
  [I], "every matrix (real arithmetic for the algebraic identities), several items", ["src/functional/algebra/det.cxx", "src/functional/algebra/inv.cxx", "src/functional/algebra/transpose.cxx"], [("det/inv/transpose", "src/functional/algebra")])
p("C22", "Matrix and Vector views compute with the values they were given",
  "A square or symmetric matrix view gives entry (i,j) of the stored matrix, and its trace, transpose, product with a vector or matrix, symmetry test and packed storage agree with those entries, whatever happens to the array it was made from. A vector's norm, dot, sum, difference, product and normalisation are the componentwise ones. Operands of another size are rejected with std::invalid_argument.",
  [I], "every entry value, sizes 1 to 4", ["src/view/Matrix.cxx", "src/view/Vector.cxx", "include/dataframe/view/Matrix.h"], [("Matrix/Vector", "src/view")], why="the view test has no assertion")
p("C23", "Eigenvalues and eigenvectors of symmetric matrices solve the eigen equation",
  "For each symmetric 2x2 or 3x3 item the eigenvalues are returned in non-increasing order, their sum is the trace, and with the eigenvectors (unit length, mutually orthogonal, in the same order) they satisfy A v = lambda v to within the solver's tolerance. The values-only, vectors-only and joint functions agree; inconsistent itemSize and dimension are reported by an exception.",
  [I], "every symmetric 2x2 matrix and the 3x3 families stated in the bounds, in real arithmetic; every 3x3 diagonal matrix exactly", ["src/functional/algebra/eigen.cxx"], [("Jacobi rotations and sort", "src/functional/algebra/eigen.cxx")])
p("C24", "Normals, areas and valence of a triangle mesh follow from its geometry",
  "For each triangle the normal is the cross product of its edges (v1,v2) and (v1,v3) and the area is half its length, in triangle order; the valence of a vertex is the number of times triangles refer to it. The decomposers for normals, areas and valence give the same values from the Dataframe's positions and indices; an index outside the positions is reported, never followed.",
  [I], "every vertex position, every connectivity over the vertices in bounds", ["src/functional/geo/normals.cxx", "src/functional/geo/areas.cxx", "src/attributes/Normals.cxx", "src/attributes/Areas.cxx", "src/attributes/Valence.cxx"], [("normals/areas/Valence", "src/functional/geo")])
p("C25", "Cartesian grids place evenly spaced points from corner to corner",
  "A grid with n1 x n2 x n3 points holds exactly that many points, x varying fastest then y then z; the first is the first corner, the last the opposite corner, and neighbours differ by a constant step along one axis (an axis with one point stays at the first corner). Wrong numbers of dimensions or components are rejected with std::invalid_argument.",
  [I], "every corner, centre and extent, up to the stated numbers of points", [F + "geo/cartesian_grid.h"], [("from_dims/from_points", F + "geo/cartesian_grid.h")], why="no test covers the grids")
p("C26", "mean and covariance follow their definitions",
  "mean gives the sum of the items divided by their count, per component; covariance gives the mean of the products of deviations from the means, is symmetric in its arguments and gives the variance, which is never negative, when both are the same Serie. Non-scalar or unequal Series are rejected with std::invalid_argument by covariance.",
  [I], "every value (real arithmetic for the identities), counts in bounds", ["src/functional/stats/mean.cxx", "src/functional/stats/covariance.cxx"], [("mean/covariance", "src/functional/stats")])
p("C27", "Quantiles interpolate the order statistics and outliers are split by the fences",
  "quantile(q) is the linear interpolation of the sorted values at position q*(count-1): it lies between the smallest and largest value, is non-decreasing in q and does not depend on the order of the values; q25, q50, q75 and IQR agree with it. outliers and notOutliers split the Serie exactly by the fences Q25 - m*IQR and Q75 + m*IQR, keeping order, and isOutliers marks the same items. Bad q, vector Series and empty Series are rejected with std::invalid_argument.",
  [I], "every finite value, every q, counts in bounds", ["src/functional/stats/quantile.cxx"], [("quantile/IQR/outliers", "src/functional/stats/quantile.cxx")])
p("C28", "A histogram counts every value exactly once, in its bin",
  "bins returns nb counts; bin b holds the number of values v with trunc((v-start)/width) = b, values at or beyond stop going to the last bin, so that the counts add up to the number of values. Without an explicit range the range is that of the data, a constant Serie included; values below start, and vector Series, are rejected with std::invalid_argument.",
  [I], "every finite value and range, every nb in bounds", ["src/functional/stats/bins.cxx"], [("bins", "src/functional/stats/bins.cxx")])
p("C29", "Every attribute a Manager lists resolves to that attribute",
  "Every name a Manager lists for an itemSize resolves, through the same Manager, to a valid Serie of that itemSize: a stored Serie under its own name, the named component of a stored vector or matrix (x,y,z; xx,xy,...; or its number), a coordinate, an eigenvalue, an eigenvector, a normal, an area or a valence, with exactly those values and one item per item of the (non-empty) source. Names are sorted and listed once, positions and indices are never listed themselves, unknown names give an invalid Serie, and contains agrees with names. Decomposers handed to a Manager live as long as it does and are released with it.",
  [I, "configurations"], "every content, itemSize, dimension and combination of decomposers in bounds, every listed name", ["src/attributes", "include/dataframe/attributes"], [("Manager::names/serie and the decomposers", "src/attributes/Manager.cxx")],
  why="the decomposer test checks which names are listed, and three values; most listed names are never resolved")
p("C30", "check and if_then_else decide item by item",
  "check gives 1 for the items whose predicate holds and 0 for the others; if_then_else gives for each item the result of the first function when the predicate holds and of the second otherwise, with the item, its index and the whole Serie as arguments. Counts and order are kept.",
  [I], "every predicate and every callback (arbitrary functions), every content", [F + "conditional/check.h", F + "conditional/if.h"], [("check/if_then_else", F + "conditional")], why="check is tested on one literal predicate; if_then_else is not tested")
p("C31", "Equality tests and masks mean what they say",
  "equals holds exactly for valid Series of the same itemSize, count, dimension and values; approximatelyEquals allows a difference up to epsilon in each value; the ...All forms hold exactly when all neighbours compare equal. Equality masks give 1 for exactly the items that are equal (or within epsilon in every component) and reject Series of different shapes with std::invalid_argument.",
  [I], "every value, NaN included, every epsilon, every shape in bounds", [F + "math/equals.h"], [("equals and masks", F + "math/equals.h")], why="the equality test has no assertion")
p("C32", "InSAR projects displacements on the line of sight and fringes wrap it",
  "insar gives for each 3-component displacement its scalar product with the line-of-sight vector; fringes gives the value reduced modulo the (positive) fringe spacing: a value between 0 and the spacing that differs from the original by a whole number of spacings, so that values a whole number of fringes apart agree (up to rounding). Wrong sizes give an invalid Serie.",
  [I], "every displacement and line of sight; real arithmetic for wrapping", ["src/functional/geo/insar.cxx"], [("insar/fringes", "src/functional/geo/insar.cxx")], why="no test covers it")
p("C33", "Random Series have the requested shape, range and reproducibility",
  "A random Serie has the requested count and itemSize and every value lies in [min, max] whatever the generator produces; every value is drawn (none is left unset), equal seeds give equal Series, and the seed given is the one used.",
  [I], "every output of the generator, every finite min < max of moderate magnitude", ["src/functional/math/random.cxx"], [("random", "src/functional/math/random.cxx")])
p("C34", "Operations never modify their inputs, and results share nothing with them",
  "No operation of the library changes a Serie or Dataframe passed to it, also when the same Serie is passed twice or the result is assigned over an input, and modifying the result afterwards changes no input. Failed operations leave their inputs unchanged as well and release the memory they used.",
  [I, H], "every content, every public operation, aliased arguments and assignment of results over inputs", ["include/dataframe/functional", "src/functional"], [("pure functions taking const Serie&", "include/dataframe/functional")],
  why="tests never compare an input with its value before the call")
p("C35", "A curried operation equals the direct call and keeps its own argument",
  "For every operation with a curried form, make_op(x) gives a function that, called with the remaining argument, gives exactly what op(x, argument) gives. The function keeps its own copy of x (a Serie, a number, an initial value or a function object): what the caller does with x afterwards, destroying it included, has no effect. It can be called any number of times with different arguments, copied, moved, and used as a step of a pipeline.",
  [I, H], "every content of the bound argument and of the arguments given later, arbitrary functions, repeated use, copies of the form, the bound argument changed or destroyed in between", [F + "macros.h", F + "math", F + "stats", F + "geo", F + "algebra", F + "map.h", F + "filter.h", F + "reduce.h", F + "utils"],
  [("MAKE_OP, make_map/filter/reject/reduce/forEach: captured argument", F + "macros.h")], why="tests use a curried form once, next to the argument it was made from")
p("C36", "Read-only operations on shared Series can run in several threads",
  "Operations that only read their Series (and reading a Serie or a const Dataframe, copying it, building views of it) can run in several threads at once, on the same or on different Series, without a data race, and each gives the result it gives alone: the library keeps no hidden mutable state between or across calls.",
  [S, I], "every order of two concurrent operations, each beside itself and beside others, on the same and on different Series with arbitrary values", ["include/dataframe/Serie.h", "include/dataframe/functional", "src/functional", "src/Dataframe.cxx"],
  [("pure functions taking const Serie&, no static state", "include/dataframe/functional")], why="no test uses a Serie from two threads; a race shows only under particular schedules")
p("C37", "Inverse operations undo each other",
  "The parts of partition_n concatenated give back the Serie; unzipping what was zipped gives back the Series; the two sides of filter/reject and of partition hold every item once, in order; negating or transposing twice, cloning, storing in a Dataframe, mapping the identity and passing through parallel_execute change nothing; sorting a sorted Serie changes nothing; adding then subtracting, multiplying then dividing, scaling up then down, and inverting twice give back the values up to rounding.",
  [I], "every value, shape in bounds, predicate and number of parts", [F + "utils/partition_n.h", F + "utils/concat.h", F + "utils/zip.h", F + "utils/unzip.h", F + "filter.h", F + "utils/reject.h", F + "utils/partition.h", "src/functional"],
  [("pairs of operations that cancel", F + "utils")], why="tests look at each operation alone; the agreement of two operations on layout and order is not exercised")
p("C38", "Printing shows the shape and every value, on the given stream",
  "Writing a Serie to a stream shows its itemSize, count, dimension and every value exactly once in order; several Series, an Array or names show each of theirs in order; all of it goes to the stream given, which is returned, and to no other. utils::print shows the shape and every item of each Serie on the standard output, dump every item with its index on the standard error, Dataframe::dump every name with itemSize and count; Vector::toString gives every component. Any Serie can be printed, an empty, scalar or invalid one included, and printing changes nothing.",
  [I], "every value, shape and stream in bounds", ["include/dataframe/types.h", "include/dataframe/inline/Serie.hxx", F + "utils/print.h", "src/Serie.cxx", "src/Dataframe.cxx", "src/view/Vector.cxx"],
  [("operator<<, print, dump, toString", "include/dataframe/inline/Serie.hxx")], why="no test looks at what is printed")
p("C39", "The result of a call does not depend on the calls made before it",
  "What an operation gives depends on its arguments alone: after any other operations on the same or on other Series (longer, shorter, empty or invalid ones, calls that failed), after its Series were changed in place or assigned to, repeated or after many calls, it gives exactly what the same call gives first thing in a fresh process. The same holds for grids, random Series with a seed, meshes, histograms, views, Dataframes, Managers, memoized, composed and piped functions.",
  [H, I], "every operation after every history in bounds, every content of its arguments", ["include/dataframe/functional", "src/functional", "src/attributes", "src/view", "src/Serie.cxx"],
  [("operations are functions of their arguments, no state between calls", "include/dataframe/functional")], why="tests call most functions once per process; a result kept from an earlier call shows only in particular sequences")
p("C40", "An exception of a callback reaches the caller as it was thrown",
  "When a function handed to the library throws (a mapper, visitor, reducer, predicate, branch of if_then_else, comparator, pipeline or composed step, memoized function, user-defined decomposer), the caller receives exactly what was thrown, with its type and content, whether or not it is a std::exception. The function is not called again, the Series involved are unchanged and nothing of the failed call is kept (a memoized function stores no result for it); the next call works as if the failed one had not happened.",
  [I, "fault_sequences"], "every kind of exception in bounds with any content, thrown at every call, every operation that calls back", ["include/dataframe/functional", "include/dataframe/inline/Serie.hxx", "include/dataframe/attributes/UserDefinedDecomposer.h"],
  [("operations that take functions", "include/dataframe/functional")], why="no test has a callback that throws, except in parallel_execute")

NA = {}
MODES = {}
def main():
    with open(V + "/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x, ensure_ascii=True) + "\n")
    checks, na = [], []
    for x in P:
        if glob.glob(V + "/harness/" + x["id"] + "*.cpp") and x["id"] not in NA:
            checks.append(dict(property=x["id"], level="other", technique=TECH, level_note=NOTE + LEVELX.get(x["id"], ""),
                               quick_cmd="python3 check.py %s --tier quick" % x["id"], thorough_cmd="python3 check.py %s --tier thorough" % x["id"]))
        else:
            na.append(dict(property=x["id"], reason=NA.get(x["id"], "harness not written yet")))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
NOTE = ("Bounded exhaustive symbolic check: within the sizes and step counts listed per entry in the evidence (bounds), every path is explored and every "
        "assertion and memory-safety check is discharged by Z3 for all values; nothing is claimed outside those bounds. Double arithmetic is first compared as "
        "uninterpreted terms (exact), then over the reals within a tolerance or in exact IEEE; real-arithmetic verdicts exclude rounding and overflow.")
LEVELX = {}
TECH = "bounded symbolic execution of the real code's LLVM IR (regenerated from /repo on every run) with Z3 deciding every branch, safety check and assertion; counterexamples replayed natively"
main()
