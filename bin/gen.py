#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below and bin/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOMS = "box, octagon, convex polyhedra (both implementations, loose and strict), linear equality, linear congruence (grid) and polyhedra-grid product domains"
L = []
def P(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

P("P01", "Assignments over-approximate every concrete execution",
  "For the " + DOMS + ", assigning linear or tree expressions (one or several in parallel, with interval coefficients, non-linear operators and floating-point or integer rounding) yields a value that contains every state the concrete assignment can reach from a state of the argument, whatever the internal representation of the argument was. When a destination value is given, the result still contains every reached state that belongs to it. Only states on which an expression is undefined (division by zero, root of a negative number, overflow) may be dropped.",
  ["inputs", "histories", "configurations"], "every domain and number type, argument value, expression, rounding mode and order of earlier operations",
  "tests compare a few random values between two libraries or only check that calls return; lost states show only for particular combinations of bounds, signs, integer dimensions and representations",
  ["box/box_assign.c", "octagons/oct_transfer.c", "newpolka/pk_assign.c", "newpolka/pkeq.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "products/ap_pkgrid.c", "apron/ap_generic.c", "itv/itv_linearize.c", "itv/itv_linexpr.c"],
  [("interval linearisation of the expression, then a transfer function sound for quasi-linear expressions", "itv/itv_linearize.c, octagons/oct_transfer.c, newpolka/pk_assign.c, box/box_assign.c")],
  ["ap_abstract0_assign_linexpr_array", "ap_abstract0_assign_texpr_array"])
P("P02", "Substitutions (backward assignments) keep every state that can reach the target",
  "For the " + DOMS + ", substituting expressions for dimensions yields a value that contains every state from which the assignment can lead into the argument (and, when a destination is given, every such state of the destination). This holds for single and parallel substitutions, linear and tree expressions, in place or not.",
  ["inputs", "histories", "configurations"], "every domain, argument value, expression and destination",
  "the backward transfer functions are called by few tests, on few expression shapes; a lost state needs a non-invertible, interval or rounded expression to show",
  ["box/box_assign.c", "octagons/oct_transfer.c", "newpolka/pk_assign.c", "newpolka/pkeq.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "apron/ap_generic.c"],
  [("pre-image transfer functions; tree expressions through forward linearisation and constraints", "apron/ap_generic.c, octagons/oct_transfer.c, newpolka/pk_assign.c")],
  ["ap_abstract0_substitute_linexpr_array", "ap_abstract0_substitute_texpr_array"])
P("P03", "Meets and constraints never remove a state that satisfies them",
  "For the " + DOMS + ", the meet of values, the meet with linear or tree constraints (equalities, strict and non-strict inequalities, disequalities, congruences, with interval coefficients) and values built from constraint arrays contain every state of the arguments that satisfies all of the constraints. Integer dimensions may only lose non-integer states.",
  ["inputs", "histories", "configurations"], "every domain, argument value, constraint array and representation of the argument",
  "unsound tightening, rounding or iteration of constraints depends on signs, infinite bounds, interval coefficients and integer dimensions that fixed tests do not combine",
  ["box/box_meetjoin.c", "octagons/oct_transfer.c", "octagons/oct_nary.c", "newpolka/pk_meetjoin.c", "newpolka/pk_constructor.c", "newpolka/pkeq.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "ppl/ppl_user.cc", "products/ap_pkgrid.c", "itv/itv_linearize.c", "apron/ap_generic.c"],
  [("constraint normalisation, boxization and insertion", "itv/itv_linearize.c, newpolka/pk_user.c, octagons/oct_transfer.c")],
  ["ap_abstract0_meet", "ap_abstract0_meet_lincons_array", "ap_abstract0_meet_tcons_array", "ap_abstract0_of_lincons_array"])
P("P04", "Joins and ray additions contain all of their arguments",
  "For the " + DOMS + ", the join of two or more values contains every state of every argument, and adding rays and lines (also modular ones where supported) keeps every state and every state reached from one by a non-negative (any, for lines) combination of them. Bottom arguments contribute nothing and never absorb the others.",
  ["inputs", "histories", "configurations"], "every domain, family of arguments (with bottom and top), set of rays, and representation",
  "joins depend on closure, minimisation and saturation state left by earlier operations; tests use a few arguments built in one way",
  ["box/box_meetjoin.c", "octagons/oct_nary.c", "octagons/oct_transfer.c", "newpolka/pk_meetjoin.c", "newpolka/pk_cherni.c", "newpolka/pkeq.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "products/ap_pkgrid.c"],
  [("joins on closed or dual representations", "octagons/oct_nary.c, newpolka/pk_meetjoin.c")],
  ["ap_abstract0_join", "ap_abstract0_join_array", "ap_abstract0_add_ray_array"])
P("P05", "Changing dimensions relates states exactly as specified",
  "For the " + DOMS + ", adding (free or null), removing, permuting, expanding, folding and forgetting dimensions produce a value of the specified numbers of integer and real dimensions that contains the correspondingly transformed state of every state of the argument, with inserted dimensions at the specified positions and unconstrained (or zero when projected). Combined add-and-remove changes equal the two changes in sequence.",
  ["inputs", "histories", "configurations"], "every domain, dimension vector (any order of insertion points and duplicates allowed by the interface) and argument",
  "index arithmetic errors show only for particular mixes of integer and real positions, repeated insertion points and representations",
  ["box/box_resize.c", "octagons/oct_resize.c", "newpolka/pk_resize.c", "newpolka/pk_project.c", "newpolka/pk_expandfold.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "apron/ap_dimension.c", "apron/ap_generic.c", "apron/ap_abstract0.c"],
  [("index remapping of matrices, bounds and PPL dimensions", "octagons/oct_resize.c, newpolka/pk_resize.c, box/box_resize.c")],
  ["ap_abstract0_add_dimensions", "ap_abstract0_remove_dimensions", "ap_abstract0_permute_dimensions", "ap_abstract0_expand", "ap_abstract0_fold", "ap_abstract0_forget_array", "ap_abstract0_apply_dimchange2"])
P("P06", "Definite answers of predicates are right",
  "For the " + DOMS + ", a true answer of is_bottom, is_top, is_leq, is_eq, sat_interval, sat_lincons, sat_tcons or is_dimension_unconstrained is always correct: no state of the values contradicts it. A false answer that the manager flags exact is correct too on real dimensions: the relation really fails.",
  ["inputs", "histories", "configurations"], "every domain and number type, values in any representation, constraints and intervals of any scalar type, with and without exactness requested",
  "a wrong true answer makes an analyser stop at a false invariant; it depends on boundaries, strictness, rays, integer dimensions and cached representations",
  ["box/box_constructor.c", "octagons/oct_predicate.c", "newpolka/pk_test.c", "newpolka/pkeq.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "apron/ap_lincons0.c", "products/ap_pkgrid.c"],
  [("tests on closed matrices, generators or constraints", "octagons/oct_predicate.c, newpolka/pk_test.c, box/box_constructor.c")],
  ["ap_abstract0_is_bottom", "ap_abstract0_is_leq", "ap_abstract0_is_eq", "ap_abstract0_sat_lincons", "ap_abstract0_sat_tcons"])
P("P07", "Bounds, constraints and generators extracted from a value enclose it",
  "For the " + DOMS + ", the interval returned for a dimension, linear or tree expression contains every value the expression takes on the states of the value; the box, the linear and tree constraints and (where implemented) the generators extracted from a value all contain every state of it. When the manager flags an interval exact, on real dimensions it is the exact range. Extracted objects are well formed: their dimensions are those of the value and no scalar is NaN.",
  ["inputs", "histories", "configurations"], "every domain, value in any representation, and linear or tree expression with interval coefficients and rounding modes",
  "rounding of conversions, infinite directions and integer dimensions give wrong bounds only on particular numbers; tests print such results without judging them",
  ["box/box_constructor.c", "box/box_assign.c", "octagons/oct_transfer.c", "octagons/oct_representation.c", "newpolka/pk_extract.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "ppl/ppl_user.cc", "itv/itv_linexpr.c", "itv/itv_linearize.c", "apron/ap_generic.c"],
  [("evaluation in interval arithmetic with directed rounding; optimisation over generators", "itv/itv_linexpr.c, newpolka/pk_extract.c")],
  ["ap_abstract0_bound_dimension", "ap_abstract0_bound_linexpr", "ap_abstract0_bound_texpr", "ap_abstract0_to_box", "ap_abstract0_to_lincons_array", "ap_abstract0_to_generator_array"])
P("P08", "Exactness and optimality flags tell the truth, and precise domains stay precise",
  "For the domains with exact arithmetic (rational boxes and octagons, convex polyhedra in both implementations, linear equalities) and linear operations: when the manager reports a result as exact it denotes exactly the set of states the operation defines (for joins and foldings, the set union), integer dimensions taking integer values only; and when it reports it as best, on real dimensions, no smaller value of the domain contains that set. With default options, convex polyhedra compute linear assignments, substitutions, meets, joins (as convex hulls) and dimension changes without any loss of precision.",
  ["inputs", "histories", "configurations"], "every argument, representation and linear operation of the exact-arithmetic domains, with and without exactness requested",
  "a wrong flag is silently believed by clients; a precision loss is invisible to tests that only check inclusion",
  ["box/box_assign.c", "box/box_meetjoin.c", "box/box_resize.c", "octagons/oct_transfer.c", "octagons/oct_nary.c", "octagons/oct_resize.c", "newpolka/pk_assign.c", "newpolka/pk_meetjoin.c", "newpolka/pk_project.c", "newpolka/pkeq.c", "ppl/ppl_poly.cc", "apron/ap_manager.c"],
  [("each operation sets man->result.flag_exact/flag_best from conversions, closure and algorithm options", "octagons/oct_transfer.c, newpolka/pk_assign.c, box/box_assign.c, ppl/ppl_poly.cc")],
  ["ap_manager_get_flag_exact", "ap_manager_get_flag_best"])
P("P09", "Widening covers both arguments and forces termination",
  "For the " + DOMS + ", the widening of a value by a larger one contains the second argument, and every chain of iterations x := widening(x, join(x, F(x))) reaches a post-fixpoint of F in finitely many steps; the reached value contains every state reachable from the start. Widening with thresholds also contains its second argument, terminates likewise, and (for polyhedra, and for octagonal constraints in exact octagons, with default options) keeps every threshold constraint satisfied by both arguments.",
  ["inputs", "histories", "configurations"], "every domain, increasing sequence of values, loop body and set of thresholds",
  "termination and coverage are properties of unbounded histories; tests apply the widening once to two fixed values",
  ["box/box_otherops.c", "octagons/oct_nary.c", "newpolka/pk_widening.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "apron/ap_abstract0.c", "products/ap_pkgrid.c"],
  [("drop of unstable bounds/constraints", "octagons/oct_nary.c, newpolka/pk_widening.c, box/box_otherops.c"), ("generic threshold widening", "apron/ap_abstract0.c")],
  ["ap_abstract0_widening", "ap_abstract0_widening_threshold"])
P("P10", "Values behave like mathematical objects",
  "For the " + DOMS + ": functional operations and queries leave the meaning of every argument and every caller-owned object (constraints, expressions, dimension vectors, intervals, arrays of values) as it was; a destructive operation gives the same result as its functional version; a copy and its original never influence each other; the same value may be passed in several positions. Canonicalize and minimize keep the meaning, approximate only loses precision, closure adds exactly the boundary, and equal canonical values have equal hashes. In the exact-arithmetic domains on real dimensions, repeating an operation repeats its result, meet and join are commutative and associative and absorb each other, with top and bottom as units, a value can be rebuilt from its own constraints (a box from its intervals), and permuting back, removing just-added dimensions and identity assignments change nothing.",
  ["inputs", "histories", "configurations"], "every domain, operation, argument value in any representation, and aliasing of arguments",
  "lazy closures, minimisation in place, shared caches and destructive variants depend on the history of each value; tests seldom look at an argument after using it",
  ["apron/ap_abstract0.c", "apron/ap_generic.c", "apron/ap_reducedproduct.c", "box/box_representation.c", "octagons/oct_representation.c", "newpolka/pk_representation.c", "newpolka/pk_approximate.c", "newpolka/pk_closure.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc"],
  [("destructive flag: in-place reuse of the argument or copy", "octagons/oct_representation.c, newpolka/pk_representation.c, box/box_representation.c"), ("arguments may be closed or minimised in place, keeping their meaning", "octagons/oct_closure.c, newpolka/pk_cherni.c")],
  ["ap_abstract0_copy", "ap_abstract0_canonicalize", "ap_abstract0_minimize", "ap_abstract0_approximate", "ap_abstract0_closure", "ap_abstract0_hash", "all destructive/functional operations of ap_abstract0.h"])
P("P11", "No memory error, undefined behaviour, leak, assertion failure or hang",
  "For the " + DOMS + ", for environments, and for linearisation and evaluation of expressions: no sequence of calls, including calls with invalid arguments that the library is specified to refuse, reads or writes outside live objects, uses freed or uninitialised memory, frees twice, executes undefined behaviour (signed overflow, invalid shift, null dereference), trips an internal assertion, divides by zero or hangs; when every object has been freed, no memory remains allocated.",
  ["inputs", "histories", "programs", "configurations"], "every sequence of calls, every domain and number type",
  "memory errors and leaks rarely change the outcome of a test; the tests run without sanitizers and release builds disable assertions",
  ["apron/ap_abstract0.c", "apron/ap_environment.c", "apron/ap_linearize_aux.c", "box/box_representation.c", "octagons/oct_hmat.c", "newpolka/pk_matrix.c", "newpolka/pk_cherni.c", "ppl/ppl_user.cc", "itv/itv_linexpr.c"],
  [("manual ownership of every object; cached dual representations; buffers shared through the manager", "newpolka/pk_internal.c, newpolka/pk_cherni.c, octagons/oct_closure.c, apron/ap_environment.c")],
  ["every function of ap_abstract0.h, ap_environment.h and ap_linearize.h"])
P("P12", "Environments form a sound algebra of name-to-dimension maps",
  "Every environment lists its integer variables then its real variables, each sorted by name without duplicates, and maps names to dimensions and back consistently. Adding, removing and renaming variables (including simultaneous swaps), permuted variants, least common environments (of two or many, also of arrays with repeated entries), comparison, equality, hashing and dimension-change vectors between environments agree with the corresponding operations on sets of typed names; the dimension changes and permutations they return are those that carry every state of the old environment to the new one. Invalid requests (unknown, duplicate or wrongly typed names) are refused by a null result. Reference counts stay right: arguments are left unchanged, nothing leaks, and nothing is freed early.",
  ["inputs", "histories"], "every sequence of environment operations over every set of names, including failing ones",
  "errors need particular name orders, repeated arguments or failing calls in the middle of a sequence; reference-count mistakes are invisible without a sanitizer",
  ["apron/ap_environment.c", "apron/ap_environment.h", "apron/ap_var.c", "apron/ap_dimension.c"],
  [("sorted name arrays merged two or k at a time; dimension changes deduced from the merge", "apron/ap_environment.c"), ("reference counting of environments and variables", "apron/ap_environment.h")],
  ["ap_environment_add", "ap_environment_remove", "ap_environment_lce", "ap_environment_lce_array", "ap_environment_rename", "ap_environment_dimchange", "ap_environment_dimchange2", "ap_environment_compare"])
P("P13", "Operations on named variables are the operations on their dimensions",
  "For the " + DOMS + ", every operation on abstract values over environments (ap_abstract1) - meets, joins and unifications, constraints and expressions over the environment of the value or a smaller one, parallel assignments and substitutions, forgetting, changes and minimisation of environments, renaming, expansion, folding, widening with or without thresholds, rays, constructors, queries and conversions - gives the value that the corresponding operation on dimensions gives once variables are replaced by their positions, over the environment it should have: no state of the operands that should be in the result is lost, and no variable takes another's place, whatever the order of names and of the caller's arguments. Calls that mention unknown, duplicate or wrongly typed variables or incompatible environments are refused: they report an invalid argument, return the documented fallback and leave their arguments usable. The caller's arrays, variables, environments and (for functional calls) values are left as they were, and reference counts of environments and variables stay right.",
  ["inputs", "histories", "configurations"], "every operation, environment, naming, order of arguments and refused call",
  "mistakes need particular name orders or expressions over sub-environments; reference counts and refused calls are not examined by tests",
  ["apron/ap_abstract1.c", "apron/ap_environment.c", "apron/ap_linexpr1.c", "apron/ap_lincons1.c", "apron/ap_texpr1.c", "apron/ap_tcons1.c", "apron/ap_generator1.c"],
  [("names translated into dimensions; expressions extended to the environment of the value; results permuted back to the name order", "apron/ap_abstract1.c"), ("reference-counted environments shared by values and expressions", "apron/ap_environment.c")],
  ["ap_abstract1_change_environment", "ap_abstract1_rename_array", "ap_abstract1_fold", "ap_abstract1_expand", "ap_abstract1_unify", "ap_abstract1_assign_texpr_array", "ap_abstract1_meet_lincons_array", "all operations of ap_abstract1.h"])
P("P14", "Linear expressions, constraints and generators are the maps they stand for",
  "A linear expression, dense or sparse, is a map from dimensions to scalar or interval coefficients plus a constant. Whatever its representation, size and history: reading, writing and listing coefficients (singly, by type of number or through a variadic list) act on exactly the coefficient named and refuse dimensions a dense expression does not have; copying, resizing, minimising, adding dimensions, permuting dimensions and extending to a larger environment keep every coefficient and move it to the right dimension, in place or not, leaving the arguments of functional calls alone; equality, ordering and hashing depend on the map only (equal expressions have equal hashes, the ordering is antisymmetric and zero exactly on equal expressions); the predicates (integer, real, linear, quasi-linear, constant, satisfied or unsatisfiable constraint) tell the truth. The same holds for constraints (with their type and modulus), generators, arrays of them (creation, resizing, access, refusal of elements over another environment), and their versions over environments, whose variables are those named. Nothing is leaked, shared or freed twice.",
  ["inputs", "histories"], "every expression, representation, dimension or variable, and sequence of operations",
  "tests build a handful of expressions; mistakes depend on sparse terms inserted out of order, unused terms, representations mixed, or positions of inserted dimensions",
  ["apron/ap_linexpr0.c", "apron/ap_linexpr0.h", "apron/ap_lincons0.c", "apron/ap_generator0.c", "apron/ap_linexpr1.c", "apron/ap_lincons1.c", "apron/ap_generator1.c", "apron/ap_dimension.c"],
  [("sorted sparse terms with unused entries at the end; dichotomic search and insertion", "apron/ap_linexpr0.c"), ("in-place shift of terms for added dimensions", "apron/ap_linexpr0.c")],
  ["ap_linexpr0_coeffref", "ap_linexpr0_add_dimensions", "ap_linexpr0_permute_dimensions", "ap_linexpr0_compare", "ap_lincons0_array_resize", "ap_linexpr1_extend_environment"])
P("P15", "Tree expressions and tree constraints are the trees they stand for",
  "Tree expressions are built exactly as asked (constants of every number type, dimensions or variables, operators with their rounding type and direction). Copies are deep; depth, size, the largest dimension, the list of dimensions and membership of a dimension or variable are those of the tree; the predicates (constant, interval-linear, polynomial, fraction, scalar) hold on every expression of the class and on none outside it; substituting an expression for a dimension or variable replaces every occurrence and nothing else; adding, removing (removed dimensions become unbounded constants) and permuting dimensions, and extending to a larger environment, rename every dimension to its new position, in place or not; equality is equality of trees and equal trees have equal hashes; conversion from linear expressions and constraints keeps every term. The same holds for tree constraints (type and modulus kept), arrays of them, and the versions over environments. Invalid requests (unknown variable, other environment, not a larger environment) are refused and change nothing. Arguments of functional calls are left alone, and nothing is leaked, shared or freed twice.",
  ["inputs", "histories"], "every expression, dimension or variable, change of dimensions and environment",
  "tests build a handful of trees and check them by printing; mistakes depend on repeated dimensions, on nesting, on aliasing and on which operands are swapped",
  ["apron/ap_texpr0.c", "apron/ap_texpr1.c", "apron/ap_tcons0.c", "apron/ap_tcons0.h", "apron/ap_tcons1.c"],
  [("recursive traversals and in-place rewriting of trees", "apron/ap_texpr0.c"), ("translation of variables through the environment", "apron/ap_texpr1.c, apron/ap_tcons1.c")],
  ["ap_texpr0_substitute", "ap_texpr0_remove_dimensions", "ap_texpr0_add_dimensions", "ap_texpr0_equal", "ap_texpr1_extend_environment", "ap_tcons1_array_set"])
P("P16", "Linearisation and interval evaluation of expressions are sound",
  "For every value or box, evaluating a linear or tree expression yields an interval that contains every value it takes on the states (under its rounding modes and types), and linearising an expression, constraint or array of constraints (to interval-linear, quasi-linear or linear form, with or without boxization) over-approximates it at every state of the value: the linear form of an expression contains its values; linear constraints requested for a meet hold wherever the originals do; those requested for a test hold only where the originals do. The results are in the requested form and scalar type, and a result reported exact is exact.",
  ["inputs", "configurations"], "every expression and constraint, value, scalar type and requested form",
  "linearisation soundness depends on rounding, signs of intervals, integer types, infinite bounds and shortcuts between forms; tests hardly call these functions directly",
  ["apron/ap_linearize.c", "apron/ap_linearize_aux.c", "itv/itv_linearize.c", "itv/itv_linexpr.c", "apron/ap_lincons0.c"],
  [("interval arithmetic on linear forms, rounding errors added as intervals", "itv/itv_linearize.c"), ("quasi-linearisation by bounds of variables", "itv/itv_linearize.c, apron/ap_linearize_aux.c")],
  ["ap_eval_linexpr0", "ap_eval_texpr0", "ap_intlinearize_texpr0", "ap_intlinearize_tcons0_array", "ap_quasilinearize_linexpr0", "ap_quasilinearize_lincons0_array"])
P("P17", "Interval arithmetic encloses the exact results",
  "For each number type the library is built with (double and long double, MPFR, rationals and integers of GMP, native integers and rationals as long as nothing overflows) and any intervals: every operation on intervals (sum, difference, product, quotient, absolute value, square root, modulo, powers and roots, rounding to integers and to floating-point formats and its inverse, meet, join, widening, enlarging, scaling, operations with a number or a bound) contains every exact result on points of its arguments, and for the elementary operations its bounds are the exact ones, or the nearest representable ones. Bounds are rounded upward, infinities follow the conventions of the interface, serialization gives the value back in the size announced. Tests (emptiness, inclusion, equality, point, sign, integrality) are exact. Conversions between the scalars of the interface and the numbers of each type enclose the value and say truthfully whether they are exact. The result may be the same object as an argument; other arguments are unchanged, results are finite or infinite numbers in canonical form.",
  ["inputs", "configurations"], "every operation, number type, pair of intervals and aliasing of the result",
  "tests print a few results in one number type; mistakes show for infinities, zeros, negative operands, results that are not representable, or when an argument is also the result",
  ["itv/itv.h", "itv/itv.c", "num/bound_def.h", "num/numflt_native.h", "num/numflt_mpfr.h", "num/numrat_mpq.h", "num/numrat_native.h", "num/numint_native.h"],
  [("upper bounds and negated lower bounds, all rounded upward", "itv/itv.c, itv/itv.h, num/bound_def.h"), ("arithmetic and conversions per number type", "num/numflt_native.h, num/numrat_mpq.h, num/numint_native.h")],
  ["itv_add", "itv_mul", "itv_div", "itv_sqrt", "itv_mod", "itv_pow", "itv_inv_pow", "itv_to_float", "itv_from_int", "itv_canonicalize", "bound_root", "bound_serialize", "itv_set_ap_coeff", "ap_coeff_set_itv", "num_set_mpq"])
P("P18", "Scalars, intervals and coefficients hold exact values",
  "Scalars of every type (double, rational, MPFR) and value (infinities, values beyond doubles, tiny fractions) hold exactly the value and type they are given; assignment, copy, swap, negation and change of type keep it, also when source and destination are the same object; comparison, equality, sign and infinity tests are those of the extended reals, across types, and return the documented -1, 0 or 1; equal scalars have equal hashes. Conversions to rationals are exact, conversions to doubles and MPFR numbers are correctly directed by the rounding mode, as tight as the format allows, and report the direction of their error. Intervals and coefficients built on them agree with sets of reals for emptiness, fullness, inclusion, comparison, equality, negation, hashing and reduction of degenerate intervals to scalars. Nothing is leaked, shared or freed twice.",
  ["inputs", "histories"], "every value, combination of number types and sequence of assignments",
  "tests use small integers in one number type; mistakes show for mixed types, infinities, large denominators, values beyond the range of doubles and aliased arguments",
  ["apron/ap_scalar.c", "apron/ap_interval.c", "apron/ap_coeff.c"],
  [("tagged unions converted on assignment", "apron/ap_scalar.c, apron/ap_coeff.c"), ("exact comparison through rationals or MPFR", "apron/ap_scalar.c")],
  ["ap_scalar_cmp", "ap_scalar_set", "ap_double_set_scalar", "ap_scalar_hash", "ap_interval_is_leq", "ap_interval_cmp", "ap_coeff_reduce", "ap_coeff_equal"])
P("P19", "Invalid calls are refused, valid calls are not",
  "For the " + DOMS + " and each of their operations: a call with an argument that the interface declares invalid (a value of another library or of other dimensions, an expression, constraint, generator or dimension beyond those of the value, a list of dimensions that is out of range, repeated, unsorted or mistyped, a permutation that is not one, an empty array or fold, folded dimensions of different types) raises an invalid-argument exception that names the operation called, returns the documented fallback (a top value of the expected dimensions, false, or an unbounded interval), does not crash, leaks nothing and leaves every argument usable and with the same meaning. A valid call raises no such exception.",
  ["inputs", "configurations", "fault_sequences"], "every operation, kind of invalid argument, domain and value",
  "tests call operations with valid arguments only; the checks are written separately for each argument of each operation",
  ["apron/ap_abstract0.c", "apron/ap_manager.c", "apron/ap_dimension.c", "ppl/ppl_user.cc", "ppl/ppl_grid.cc"],
  [("argument checks before each dispatch, exception recorded in the result log of the manager", "apron/ap_abstract0.c, apron/ap_manager.c")],
  ["all operations of ap_abstract0.h", "ap_manager_clear_exclog"])
P("P20", "Printed text and serialized bytes denote exactly the value",
  "Scalars, intervals, coefficients, linear and tree expressions, constraints, generators, arrays of them, environments and changes of dimensions are printed so that the text, read in the usual notation, denotes exactly the object: every number (rationals exactly, floating-point numbers well enough to be recovered), sign, operator, precedence and parenthesis, rounding annotation, modulus, variable or dimension name and index, and no other term. Printing an abstract value of the " + DOMS + " gives its dimensions, whether it is empty, and intervals or constraints that denote exactly its set; the printed difference of two boxes or octagons says there is none exactly when they are equal and otherwise shows what each says. For octagons over doubles, rationals, MPFR numbers and integers, deserializing the serialized bytes (from a buffer of exactly that size, alone or among others, with another manager) yields the same dimensions and the same set and reports the number of bytes read; data of another number type and domains without serialization are refused with an exception. Neither printing nor serializing changes the value.",
  ["inputs", "configurations"], "every value, expression, set of names and number type",
  "tests print values for a human reader and never read the text back; mistakes show for particular signs, unit coefficients, strict or modular constraints, infinities, non-integer numbers, nested operators, empty values or two-digit dimensions",
  ["apron/ap_scalar.c", "apron/ap_linexpr0.c", "apron/ap_lincons0.c", "apron/ap_texpr0.c", "apron/ap_generator0.c", "apron/ap_environment.c", "apron/ap_abstract1.c", "box/box_representation.c", "octagons/oct_print.c", "newpolka/pk_representation.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "num/num.h"],
  [("printing functions", "apron/ap_linexpr0.c, apron/ap_texpr0.c, apron/ap_lincons0.c, octagons/oct_print.c, box/box_representation.c"), ("raw half matrices written number by number", "octagons/oct_print.c, num/bound_def.h, num/numrat_mpq.h")],
  ["ap_abstract0_fprint", "ap_abstract0_fprintdiff", "ap_abstract1_fprint", "ap_abstract0_serialize_raw", "ap_abstract0_deserialize_raw", "ap_linexpr0_fprint", "ap_texpr0_fprint", "ap_lincons0_array_fprint", "ap_scalar_fprint"])

P("P24", "Threads that share no objects do not influence each other",
  "When several threads use the library at the same time, each with managers, abstract values, environments and expressions of its own, every call of every thread gives the result, flags, exceptions and text it gives when the thread runs alone, whatever the schedule, and the library makes no unordered access to memory shared by two threads (boxes over doubles, rationals and MPFR numbers, octagons over doubles, rationals, MPFR numbers and integers, polyhedra and linear equalities of newpolka over rationals, and the common layers below and above them; GMP and MPFR being thread-safe).",
  ["schedules", "histories"], "every interleaving of the calls of any number of threads, whatever the calls",
  "the tests have a single thread; a hidden shared buffer, counter, cache or lazily initialized table needs two threads in the same function at the same time",
  ["apron/ap_manager.c", "apron/ap_abstract0.c", "apron/ap_environment.c", "apron/ap_generic.c", "itv/itv_linearize.c", "box/box_internal.c", "octagons/oct_representation.c", "newpolka/pk_representation.c", "newpolka/pk_internal.c"],
  [("all working memory belongs to a manager", "apron/ap_manager.c, itv/itv.c, box/box_internal.c, octagons/oct_internal.h, newpolka/pk_internal.c")],
  ["all public functions; apron.texi: in a multithreaded program, both managers and abstract values should not be shared between threads"])

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in L: f.write(json.dumps(p) + "\n")
    for p in L:
        for a in p["anchors"]["files"] + [w.strip() for m in p["anchors"]["mechanism"] for w in m["where"].split(",")]:
            if not os.path.exists(os.path.join("/repo", a.split(":")[0].split(" ")[0])): print("warning: no file", a, "in", p["id"])
    ids = [p["id"] for p in L]
    na = props.NOT_APPLICABLE
    checks = []
    for i in ids:
        if i in na: continue
        if i not in props.PROPS: print("warning: no check for", i); continue
        c = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 bin/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=c.get("technique", props.TECH), level="exploration", level_note=c.get("note", props.NOTE)))
    m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=[dict(property=k, reason=r) for k, r in na.items()],
             notes="No hooks are needed in /repo: checks compile its sources as they are (bin/build.py). Known findings and repaired defects: known_findings.txt.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
if __name__ == "__main__":
    main()
