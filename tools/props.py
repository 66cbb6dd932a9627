"""Single source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Refutation clauses are the antecedent plus one negated succedent",
 "For every antecedent and succedent, each clause built for refutation holds an equivalent of every non-trivial antecedent comparison together with an equivalent of the negation of one succedent comparison, and every non-trivial succedent comparison gets such a clause. Only comparisons of the forms <, <=, = and != remain, whatever the right-hand sides are. A side with nothing left to check is rejected loudly, never answered.",
 "all finite lists of comparisons of the six kinds (plus trivially true entries) with arbitrary polynomial sides",
 "The tests give negation, rewriting and clause building a few literal comparisons, mostly with right-hand side 0; kinds combined with non-zero right-hand sides, repetitions and list sizes are unbounded.",
 ["vts/checker.py"],
 [("negation table", "vts/checker.py:negate_relations"), ("rewriting to < and <=", "vts/checker.py:rewrite_to_less"), ("clause construction", "vts/checker.py:vts_preformat")],
 observe=["the clause list returned for (antecedent, succedent)"])
prop("C02", "Each constraint kind reaches the decision procedure as that kind",
 "Every comparison of a clause is handed to the decision procedure exactly once, under the list of its own kind (<=, <, =, !=), with its own polynomial; a comparison of any other kind is rejected, not dropped. A sequent of the example run is reported as refuted exactly when at least one of its clauses was found satisfiable, and every example that was examined and refuted appears in the final report.",
 "all clauses of any length mixing the four kinds; all sequences of clause verdicts; all numbers of example files",
 "Tests route one or two comparisons and never run the reporting loop on a refutable sequent.",
 ["vts/checker.py", "vts/isym.py", "vts/uni_vts.py"],
 [("sorting of comparisons by kind", "vts/checker.py:make_relation_map"), ("conversion and hand-over", "vts/isym.py:ts, vts"), ("verdict accumulation", "vts/checker.py:check_examples")],
 observe=["verdict printed and recorded per example"])
prop("C03", "The sequent text parser builds exactly the formula that is written",
 "For every input in the sequent text format, each arithmetic and comparison symbol is read as that operation with its operands in written order, numerals (with optional leading minus, integer, trailing-dot or decimal) are read with their written value and sign, and variables with their written names. Antecedent and succedent formulas come back under their own section. Reading one text never changes how later texts are read.",
 "all well-formed texts of the format, nested to any depth, in any order within one session",
 "Tests parse a few dozen literal strings; the grammar is recursive and the session state reachable through variable names is unbounded.",
 ["vts/grf_parser.py"],
 [("grammar and its actions", "vts/grf_parser.py (module level)"), ("numeral and variable actions", "vts/grf_parser.py:doInt, doReal, doVariable"), ("comparison actions", "vts/grf_parser.py:proc_*")],
 over=("inputs", "histories"), observe=["parse results of terms, comparisons and sequents"])
prop("C04", "The univariate reduction keeps kind and sides of each comparison",
 "Every comparison of a formula list is turned into a comparison of the same kind, at the same position, whose left side is the original left minus right side with every variable replaced by the one working variable and whose right side is 0. No comparison is lost, duplicated or reordered, and antecedent and succedent of an example are never exchanged.",
 "all lists of comparisons over any set of variables",
 "Tests convert two or three fixed comparisons.",
 ["vts/examples_parser.py"],
 [("substitution and re-construction", "vts/examples_parser.py:make_univariate"), ("example assembly", "vts/examples_parser.py:examples_preformat_uni")],
 observe=["univariate comparisons returned per example"])
prop("C05", "Stored examples are read back from where they are written, unchanged",
 "Whatever example collections the writer stores, the readers look for in the same directory tree and file set, in the same serialisation and mode; every stored file of every stored collection is yielded. The content of a file is the list of (antecedent, succedent) examples parsed from the source file of that name.",
 "all collections, file names and file contents produced by the writer",
 "No test touches the store; agreement of two pieces of code over every file name is not a sampled fact.",
 ["vts/examples_parser.py", "vts/checker.py"],
 [("writer", "vts/examples_parser.py:write_sympy_parseable_examples"), ("readers", "vts/examples_parser.py:unpickle_dirs_gen, unpickle_dirs, unpickle_from_dir"), ("source parsing", "vts/examples_parser.py:parse_example_dirs, parse_files_from_dir")],
 over=("inputs", "histories"), observe=["examples yielded to the checker"])
prop("C06", "Satisfiability answers examine every candidate point against every constraint",
 "Both univariate decision procedures answer 'satisfiable' only if every given constraint, of all four kinds, is met at one and the same candidate point, and 'unsatisfiable' only after every candidate point failed: each root of each = or <= polynomial, a point just right of each root of each < or != polynomial, and minus infinity. The sign used for minus infinity is that of the leading coefficient, flipped for odd degree.",
 "all lists of polynomials of the four kinds, of any degree, in any combination and order",
 "Tests run a handful of fixed systems through the sign-based procedure; the substitution procedure is compared on few.",
 ["vts/uni_vts.py"],
 [("term substitution", "vts/uni_vts.py:internal_ts, evaluate, EvalStr"), ("sign-based procedure", "vts/uni_vts.py:internal_vts, evaluate_on_sign_assignment, e_close_evaluate_on_sign_assignment"), ("infinitesimally close sign", "vts/uni_vts.py:e_close_evaluate_single_on_sign_assignment")],
 observe=["boolean answer of the procedures"])
prop("C07", "A polynomial's allowed signs are those permitted by all its constraints",
 "For every polynomial that occurs in the constraints, the signs accepted for it are exactly those permitted by every constraint kind it occurs under (<=: negative or zero, <: negative, =: zero, !=: negative or positive), however often and in whatever order it occurs. Constraints on one polynomial never influence the signs accepted for a different polynomial.",
 "all constraint lists, including one polynomial under several kinds",
 "Tests build the table for a couple of lists; the 16 combinations of kinds times arbitrary other polynomials are not sampled.",
 ["vts/uni_vts.py"],
 [("table construction", "vts/uni_vts.py:sign_conditions_lookup"), ("polynomial key", "vts/uni_vts.py:make_poly_hashabel")],
 observe=["accepted sign set per polynomial"])
prop("C08", "Signed remainders and root counts keep the sign of what they scale",
 "Every pseudo-remainder step combines dividend and shifted divisor so that the leading term cancels and the dividend is scaled by a strictly positive factor, whatever the sign of the divisor's leading coefficient. The remainder sequence starts with its two inputs and continues with negated remainders until the remainder vanishes. The root count is the number of sign changes at minus infinity less that at plus infinity, over the non-zero entries of that sequence for a polynomial and its derivative times the query polynomial.",
 "all pairs of polynomials (any degrees, any signs of leading coefficients, zero coefficients included)",
 "Tests compare a few sequences and queries with known values; sign combinations of leading coefficients and degree gaps are unbounded.",
 ["vts/uni_vts.py"],
 [("pseudo remainder", "vts/uni_vts.py:signed_pseudo_remainder"), ("sequence", "vts/uni_vts.py:signed_remainder_sequence"), ("Cauchy index", "vts/uni_vts.py:signed_remainder_cauchy_index"), ("Tarski query", "vts/uni_vts.py:tarski_query")],
 observe=["remainders, sequences, query values"])
prop("C09", "Sign counts are decoded with the encoding they were computed in",
 "The products whose root counts are taken, the rows of the sign matrix and the positions read from the solved vector all use one and the same enumeration of sign vectors, for every number of polynomials. The sign reported for the goal polynomial is the one whose count is 1 at the position fixed by the known signs of the others; an ambiguous, missing or impossible count is an error, never an answer.",
 "every number of polynomials, every assignment of known signs, every count vector",
 "Tests look at one or two polynomials with fixed counts; agreement of producer and consumer of the encoding holds for all sizes or not at all.",
 ["vts/uni_vts.py", "vts/matrix_of_signs.py"],
 [("product enumeration", "vts/uni_vts.py:make_product_list"), ("decoding", "vts/uni_vts.py:pick_sign_of_goal"), ("assembly", "vts/uni_vts.py:evaluate_single_on_sign_assignment"), ("base matrix and tensor order", "vts/matrix_of_signs.py")],
 observe=["sign of a polynomial at a described root"])
prop("C10", "Root descriptions keep every root and record true derivative signs",
 "For every polynomial and its roots, each root receives exactly one description, roots are told apart by the true sign (negative, zero, positive) of the successive derivatives at that root, and a derivative is recorded with that sign whenever it separates some of the roots. A recorded sign can always be looked up again for the polynomial it was recorded for.",
 "all polynomials and all numbers of roots",
 "Tests use polynomials with at most a few roots.",
 ["vts/uni_vts.py"],
 [("partition by derivative sign", "vts/uni_vts.py:get_discri_der_signs"), ("record", "vts/uni_vts.py:DiscDerSigns")],
 observe=["descriptions returned for a list of roots"])
prop("C11", "A sign matrix served for n is the sign matrix (inverse) of n",
 "Whatever sequence of matrix requests was made, in this or an earlier process, the matrix returned for a size is the one of that size and of the requested kind (plain or inverse): memory and disk entries are written and read under keys that distinguish size and kind, hold the value just computed, and are written in the form they are read. Sizes that are not supported are rejected, not served.",
 "all request histories in one process and over process restarts sharing a cache directory",
 "Tests ask for sizes 1 to 3 once, mostly on a cold cache; histories are unbounded.",
 ["vts/matrix_of_signs.py"],
 [("memoised construction", "vts/matrix_of_signs.py:new_get_matrix, new_get_matrix_inverse"), ("disk cache", "vts/matrix_of_signs.py:write_to_cache, cache_hit, read_cache"), ("public access", "vts/matrix_of_signs.py:get_matrix, get_matrix_inverse")],
 over=("inputs", "histories"), observe=["matrix returned for a size"])
prop("C12", "Coefficient conversion scales by one positive factor and loses no term",
 "Every polynomial handed to a decision procedure is converted to a coefficient list in which position i carries the coefficient of the i-th power, missing powers are 0, and all coefficients were multiplied by one common factor that is strictly positive. Coefficients that are neither integer nor rational are rejected loudly. Converting back pairs position i with the i-th power.",
 "all univariate polynomials with rational coefficients",
 "Tests convert a few polynomials; sign and uniformity of the scale must hold for every denominator pattern.",
 ["vts/isym.py"],
 [("conversion", "vts/isym.py:convert, convert_rationals_to_ints"), ("inverse", "vts/isym.py:convert_back")],
 observe=["coefficient lists"])
prop("C13", "Coefficient-list arithmetic is derivative, value and product, for all sizes",
 "For every coefficient list the derivative's entry i is (i+1) times entry i+1, the value at a point is the sum of entry i times the i-th power of the point, and entry k of a product is the sum of all entry products whose positions add up to k. This holds for every length, including empty and single-entry lists.",
 "all coefficient lists of any length over any exact numbers",
 "Tests multiply, differentiate and evaluate a few short lists.",
 ["vts/uni_vts.py"],
 [("derivative", "vts/uni_vts.py:derivative"), ("evaluation", "vts/uni_vts.py:evaluate_poly"), ("product", "vts/uni_vts.py:multiply")],
 observe=["returned coefficient lists and values"])
prop("C14", "Quantifier elimination splits on every sign, in independent branches",
 "Wherever the elimination procedures branch on an undetermined parameter coefficient, the branches cover every possible case exactly once (zero or non-zero over the complex numbers; negative, zero, positive over the reals), and a coefficient whose sign is already fixed is not branched on again. Branches never share mutable tables or contexts: what one branch records is invisible to its siblings.",
 "all sets of parameter coefficients and all branching depths",
 "There is no test of branching; the number of coefficients and combinations is unbounded.",
 ["highschool_qe/muchnik.py", "highschool_qe/cohenhorm.py"],
 [("full assignments", "highschool_qe/muchnik.py:_c_full_assignment, _r_full_assignment, _diagram_copy"), ("context expansion", "highschool_qe/cohenhorm.py:expand_context, get_initial_table, _real_table")],
 observe=["list of case diagrams / contexts"])
prop("C15", "Elimination answers list exactly the cases that satisfy the input",
 "A case is kept exactly when some column meets every input constraint with its own required sign (< negative, = zero, > positive; over the complex numbers = zero, otherwise non-zero). For a kept case every parameter polynomial is reported in the position of the answer that corresponds to its sign in that case (negative, zero, positive; or zero, non-zero).",
 "all constraint sets and all extended diagrams",
 "The only tests of this package check table copying.",
 ["highschool_qe/muchnik.py", "highschool_qe/cohenhorm.py"],
 [("column filtering and answer", "highschool_qe/muchnik.py:complex_full, real_full"), ("column filtering and answer", "highschool_qe/cohenhorm.py:real_full")],
 observe=["list of tuples returned by the full procedures"])
prop("C16", "Sign diagrams are extended by sound local sign rules",
 "When a polynomial is added to a sign diagram, its sign at minus (plus) infinity is that of its leading coefficient, flipped at minus infinity for odd degree; at a root of a known polynomial it is the sign of the pseudo-remainder, flipped exactly when the divisor's leading coefficient is negative and was raised to an odd power; between known neighbours it is the neighbours' common or only non-zero sign, a new root with copied neighbours when they are opposite, and an invalid diagram when both are zero. With a vanishing leading coefficient the signs are those of the polynomial without its leading term.",
 "all diagrams, polynomials, degrees and sign combinations",
 "No test extends a diagram.",
 ["highschool_qe/muchnik.py", "highschool_qe/cohenhorm.py"],
 [("extension over reals", "highschool_qe/muchnik.py:real_extend"), ("extension over complex", "highschool_qe/muchnik.py:complex_extend"), ("extension of a single table", "highschool_qe/cohenhorm.py:extend_single_table")],
 observe=["rows of the extended diagram"])
prop("C17", "Caching and plain algebra back ends answer every operation alike",
 "Every operation the elimination procedures request from an algebra back end exists in each back end with the same arity, and the caching back end returns for every argument tuple what the plain one returns for the same operation and arguments in the same order. The plain back end applies each operation with respect to the elimination variable.",
 "all operations, all argument values, all call histories",
 "No test uses the caching back end; agreement is over all call histories.",
 ["highschool_qe/cachedsympywrapper.py", "highschool_qe/sympywrapper.py", "highschool_qe/muchnik.py", "highschool_qe/cohenhorm.py"],
 [("interface", "highschool_qe/muchnik.py:AlgebraAPIWrapper"), ("plain back end", "highschool_qe/sympywrapper.py:SympyWrapper"), ("caching back end", "highschool_qe/cachedsympywrapper.py:CachedSympyWrapper._c_compute")],
 over=("inputs", "histories"), observe=["operation results"])
prop("C18", "Inputs handed to the library are not modified",
 "Polynomial lists, comparison lists, coefficient lists and sample points passed by a caller to the decision, conversion, clause-building, elimination and evaluation entry points have the same contents after the call as before, on every path including errors.",
 "all entry points and all arguments",
 "Tests check results, not that arguments survive, and only on sampled paths.",
 ["vts/uni_vts.py", "vts/isym.py", "vts/checker.py", "vts/examples_parser.py", "highschool_qe/muchnik.py", "highschool_qe/cohenhorm.py", "GRF/grf.sage", "GRF/local_search.py"],
 [("fresh lists instead of in-place edits", "all entry points")],
 over=("inputs", "histories"), observe=["caller-held lists, dictionaries and points after a call"])
prop("C19", "Answers do not depend on what was asked before",
 "Decision, conversion, parsing and sampling entry points keep no state from one call that can change the answer of a later, unrelated call: module-level, class-level and default-argument state is either never written after start-up, or a memo whose entries are determined by their keys, or recomputed for each problem.",
 "all sequences of calls in one session",
 "Tests run in one fixed order with fixed inputs.",
 ["vts/uni_vts.py", "vts/matrix_of_signs.py", "vts/grf_parser.py", "vts/examples_parser.py", "vts/checker.py", "vts/isym.py", "highschool_qe/muchnik.py", "highschool_qe/cohenhorm.py", "highschool_qe/cachedsympywrapper.py", "GRF/grf.sage", "GRF/local_search.py", "GRF/smt2.py"],
 [("memo tables keyed by their inputs", "vts/matrix_of_signs.py"), ("variable order", "GRF/local_search.py:VarOrder")],
 over=("histories",), observe=["results of repeated and interleaved calls"])
prop("C20", "Atoms and goals evaluate and negate by their written relation",
 "An atom built from two sides and a relation is true at a point exactly when left minus right stands in that relation to 0 there, is undefined when one of its polynomial's variables has no value, and is rejected when the relation is unknown; negating it yields the complementary relation. An implication goal is true exactly when its conclusion is true or one of its hypotheses is definitely false.",
 "all six relations, all polynomials, all full and partial points",
 "The package has no unit tests; relations times signs times partiality must all agree.",
 ["GRF/grf.sage"],
 [("atoms", "GRF/grf.sage:RCF_Atom"), ("goals", "GRF/grf.sage:RCF_Goal")],
 observe=["truth values of atoms and goals"])
prop("C21", "The hiding-problem parser builds exactly the sequent that is written",
 "For every hiding problem, each arithmetic and comparison symbol is read as that operation with operands in written order, numerals carry their written value and sign, distinct names denote distinct variables and equal names the same variable, and antecedent and succedent formulas land on their own side. The goal examined is one of the succedent formulas and every other succedent formula joins the hypotheses negated.",
 "all well-formed hiding problems",
 "No unit test parses a problem.",
 ["GRF/smt2.py"],
 [("grammar and actions", "GRF/smt2.py:ParseSMT"), ("variable table", "GRF/smt2.py:SMTContext.get_ring_var"), ("sequent set-up", "GRF/smt2.py:SMTContext.perform_grf")],
 observe=["antecedent, succedent and goal of the context"])
prop("C22", "The hiding result names exactly the unused formulas of the original sequent",
 "The indices reported for hiding are the positions, in the antecedent and succedent as written, of exactly those formulas that were not used; every reported index exists in the written sequent. The result line lists antecedent indices as antecedent and succedent indices as succedent.",
 "all sequents and all subsets of used hypotheses",
 "No unit test runs a sequent with several succedents.",
 ["GRF/smt2.py"],
 [("address computation", "GRF/smt2.py:SMTContext.perform_grf"), ("result line", "GRF/smt2.py:grf_on_file")],
 observe=["hiding result and result line"])
prop("C23", "Projection and lifting omit no polynomial, level or cell",
 "Each projection step contributes every pairwise resultant, every discriminant and every leading coefficient of its level with respect to the variable eliminated there, dropping only constants; every level is projected. Sampling takes a point left of the first root, right of the last, at every root and between every two neighbouring roots, and lifting extends every cell of every level except those where the goal is already true, pairing coordinates with variables in one order throughout.",
 "all polynomial sets, dimensions and root configurations",
 "The package has no unit tests; sets, dimensions and root numbers are unbounded.",
 ["GRF/grf.sage"],
 [("projection", "GRF/grf.sage:QE_Factory.bm_proj, filter_proj_set, projection_phase"), ("sampling", "GRF/grf.sage:QE_Factory.iso_root_intvls, sector_sps, base_phase"), ("lifting", "GRF/grf.sage:QE_Factory.stack_over_cell, lift_level, sp_dict, lifting_phase")],
 observe=["projection sets and sample point dictionaries"])
prop("C24", "Hypothesis selection loses no hypothesis and hits every bad set",
 "Promoting a hypothesis moves exactly that one to the goal side and keeps all others; a sample point at which the goal fails and all hypotheses hold is reported as a counterexample; the set recorded at a failing point is exactly the hypotheses that hold there, and only sets contained in a recorded one are discarded. The selection requires, for every recorded set, at least one hypothesis outside it.",
 "all hypothesis lists, sample points and selection histories",
 "The package has no unit tests.",
 ["GRF/grf.sage"],
 [("promotion", "GRF/grf.sage:RCF_GD_Decide.promote_right"), ("bad sets", "GRF/grf.sage:RCF_GD_Decide.bad_subsets_on_dict"), ("selection", "GRF/grf.sage:RCF_GD_Decide.good_hyps"), ("loop", "GRF/grf.sage:RCF_GD_Decide.check")],
 over=("inputs", "histories"), observe=["hypotheses, goal and constraints after each step"])
prop("C25", "Sampled points give every problem variable its own coordinate",
 "Vectors and points are converted into each other in one order, so that a point turned into a vector and back is the same point, also when problems over different variables follow each other. Every perturbed point has exactly the coordinates of the original, each moved by at most the given radius, and the sample keeps the original point and every candidate at which the goal fails.",
 "all points, dimensions and sequences of problems",
 "No test covers sampling.",
 ["GRF/local_search.py", "GRF/grf.sage"],
 [("order", "GRF/local_search.py:VarOrder"), ("perturbation", "GRF/local_search.py:perturb, perturb_dict; GRF/grf.sage:k_sample_points_in_ball"), ("sampling", "GRF/local_search.py:local_search_sampling")],
 over=("inputs", "histories"), observe=["sample points returned"])
# ---- stated, not claimed -------------------------------------------------
prop("C30", "Elimination answers are equivalent to the quantified input",
 "The disjunction returned by an elimination procedure is equivalent, over the parameters, to the existence of a value of the eliminated variable meeting the input constraints.",
 "all inputs and all parameter values", "Equivalence over the reals.",
 ["highschool_qe/muchnik.py", "highschool_qe/cohenhorm.py"], [("whole procedures", "highschool_qe")])
prop("C31", "Every procedure terminates",
 "The decision, elimination and filtering procedures terminate on every input.",
 "all inputs", "Termination rests on degree arguments over runtime polynomials.",
 ["vts/uni_vts.py", "highschool_qe/muchnik.py", "highschool_qe/cohenhorm.py", "GRF/grf.sage"], [("degree decrease", "recursions")])
prop("C32", "Numeric root search finds a sign change whenever there is one nearby",
 "A local search step started at a point reaches a point at which the chosen polynomial has the opposite sign whenever such a point is close.",
 "all polynomials and points", "Floating-point search behaviour.",
 ["GRF/local_search.py"], [("root finding", "GRF/local_search.py:local_search_sampling")])
prop("C33", "Root isolation separates all real roots",
 "The roots handed over by the exact arithmetic back ends are all the real roots, in order and pairwise distinct.",
 "all polynomials", "Property of third-party libraries.",
 ["vts/uni_vts.py", "GRF/grf.sage"], [("library calls", "vts/uni_vts.py, GRF/grf.sage")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
