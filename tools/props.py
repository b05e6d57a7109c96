IN, HI, SC, CR, CO, PR, FA = "inputs", "histories", "schedules", "crash_points", "configurations", "programs", "fault_sequences"
BME = "bounded-exhaustive enumeration of the real code against an executable reference model"

prop("W01", "Workload builders denote the same terms as their algebra",
 "For any sequence of set, plug, filter and append operations, forcing the resulting workload yields exactly the multiset of terms the operations denote: plugging substitutes every combination of independently chosen pegs for the occurrences of the name, filtering keeps exactly the satisfying terms, appending adds the terms of both. No internal rewriting of the workload (flattening, pushing filters through plugs, merging filters, treating an empty plug specially) changes the denoted terms.",
 [HI, PR], "all sequences of builder operations over all workloads, names and filters",
 "Unit tests build about ten fixed workloads with one or two operations; the rewrites interact only in longer chains.",
 ["src/enumo/workload.rs", "src/enumo/filter.rs", "src/enumo/sexp.rs"],
 [("Workload::plug/append/filter smart constructors", "src/enumo/workload.rs"), ("Filter::and, is_monotonic", "src/enumo/filter.rs"), ("Sexp::plug", "src/enumo/sexp.rs")],
 technique="explicit-state exploration of all builder histories to a depth bound, replayed on the real builder (lockstep model)",
 note="Exhaustive over 43 builder operations to depth 3 (thorough 4) plus pairwise combinations; compares multisets of forced terms. Trusts the 60-line denotational model.",
 observe=["Workload::force"])

prop("W02", "Filters select exactly the terms their definition describes",
 "A size filter keeps exactly the terms whose number of atoms, lists or nesting depth meets the bound; contains/excludes keep exactly the terms with/without some subterm matching the pattern, with wildcards matching anything and repeated variables matching equal subterms; canonical filtering keeps exactly the terms whose distinguished symbols first occur in the given order; conjunction, disjunction and inversion are boolean. Filtering preserves the order of the surviving terms.",
 [IN], "all filters and all s-expressions",
 "Tests check 3 patterns on 5 terms, 21 measurements and 15 canonicalisations.",
 ["src/enumo/filter.rs", "src/enumo/pattern.rs", "src/enumo/sexp.rs", "src/enumo/metric.rs"],
 [("Filter::test", "src/enumo/filter.rs"), ("Pattern::matches_with", "src/enumo/pattern.rs"), ("Sexp::measure, Sexp::canon", "src/enumo/sexp.rs")],
 level="exploration", technique="exhaustive enumeration of all filters of a bounded grammar over all trees of a bounded shape, against an independent matcher",
 note="Millions of (filter, term) pairs, complete within the shape bounds; trusts the independent matcher and measures.",
 observe=["Workload::filter + force"])

prop("W03", "Grammar iteration enumerates exactly the terms up to the bound",
 "Iterating a grammar to bound n (n at least 1) under a size metric yields every term the grammar derives whose metric is at most n, each once, and nothing else; plugging variables, values and operators into the result yields every instantiation. The base grammar with k arities contains the variable, the value and one operator production per arity, and substitution replaces all occurrences in a term by the same value, once per value.",
 [IN, CO], "all grammars, metrics, bounds and substitutions",
 "Tests compare the number of terms for two grammars; a wrong term that keeps the count goes unseen, and other grammars are not tried.",
 ["src/recipe_utils.rs", "src/enumo/workload.rs"],
 [("iter_metric, base_lang, substitute", "src/recipe_utils.rs"), ("monotone filter push-down", "src/enumo/workload.rs")],
 level="exploration", technique="exhaustive enumeration of (grammar, metric, bound) against an independent language generator",
 note="18 grammars x 3 metrics x every bound whose language fits the cap; the oracle enumerates the language by fixpoint.",
 observe=["iter_metric(..).force()"])

prop("W04", "Materialising a workload represents every term with exact vectors",
 "Turning a workload into an e-graph represents every term of the workload, equates no two different terms, and gives each class the characteristic vector obtained by evaluating its term on every combination of the variables' sample values, each combination exactly once. This holds for any number of variables, including none, and any order of terms.",
 [IN, PR], "all workloads over all domains with any number of variables",
 "No test looks at the e-graph of a workload; recipes only check numbers of rules found.",
 ["src/enumo/workload.rs", "src/util.rs", "src/language.rs", "src/bv.rs"],
 [("Workload::to_egraph collects variables before adding terms", "src/enumo/workload.rs"), ("self_product", "src/util.rs"), ("SynthAnalysis::make", "src/language.rs"), ("impl_bv initialize_vars/eval", "src/bv.rs")],
 level="exploration", technique="exhaustive enumeration of small workloads; every class and vector cell compared with direct evaluation",
 note="All sequences of up to 4 (5) terms from a 20-term pool over a finite partial domain, whole term spaces with up to 8 variables, and the real bit-vector domain at 7 widths.",
 observe=["Workload::to_egraph", "class data"])

prop("W05", "Workloads and rulesets survive a round trip through files",
 "Reading back a file written from a workload or a ruleset gives exactly the terms, respectively rules, in the same order, whatever the file held before. Reading a hand-written rules file gives the rules of its lines, both directions for a bidirectional line, and ignores lines that are not rules.",
 [IN, HI], "all workloads and rulesets and all histories of writes to a path",
 "No test writes a workload or ruleset; recipe tests read a handful of fixed baseline files.",
 ["src/enumo/workload.rs", "src/enumo/ruleset.rs", "src/enumo/sexp.rs", "src/enumo/rule.rs"],
 [("Workload::to_file/from_file", "src/enumo/workload.rs"), ("Ruleset::to_file/from_file", "src/enumo/ruleset.rs")],
 technique="explicit-state exploration of all write histories to a bound, replayed on real files",
 note="File contents are the model state; every history of up to 3 writes of different sizes then a read.",
 observe=["from_file(to_file(x))"])

prop("W06", "Texts of terms and patterns are read exactly",
 "Reading the text of an S-expression or of a filter pattern gives exactly the tree the text denotes: words keep their characters and lists their elements in order, however deeply they are nested and however they are spaced, and in patterns * is the wildcard and names starting with ? are variables. A printed S-expression reads back as the same tree. Text that holds no complete expression is rejected with an error, never with a panic.",
 [IN], "all texts",
 "Tests read a dozen well-formed texts and no malformed one.",
 ["src/enumo/sexp.rs", "src/enumo/pattern.rs", "src/enumo/workload.rs"],
 [("Sexp: FromStr, Display", "src/enumo/sexp.rs"), ("Pattern: FromStr", "src/enumo/pattern.rs"), ("Workload::new", "src/enumo/workload.rs")],
 level="exploration", technique="exhaustive enumeration of all texts over a small alphabet to a length bound, and of all trees and renderings to a size bound, against an independent reader",
 note="All 960,000 texts of up to 7 characters over 7 (thorough: 47 million of up to 9), all trees of width<=3 and depth<=3 in six renderings, unusual names, wide and deep trees.",
 observe=["Sexp::from_str, Display", "Pattern::from_str", "Workload::new, force"])

prop("A01", "E-class data stays exact through every add, union and rebuild",
 "After any history of additions, unions and rebuilds each e-class carries exactly what its members justify: a vector cell is defined if and only if some member defines it, the interval is the intersection of the members' intervals, and the recorded simplest term is a member of the class and a smallest one without disallowed operators when such a member exists. A class whose interval is a single value is equal to that constant. Nothing else is equated beyond congruence.",
 [HI], "all histories of adds, unions and rebuilds in any order",
 "Recipes exercise one order of unions per domain and look only at the rules that come out.",
 ["src/language.rs", "src/lib.rs"],
 [("SynthAnalysis::make/merge/modify", "src/language.rs"), ("ExtractableAstSize, Interval", "src/lib.rs")],
 technique="explicit-state exploration of all operation histories to a bound, lockstep with a naive e-graph and least-fixpoint analysis",
 note="Every history of 3 (4) operations over two term pools plus all permutations of three 6-operation histories; real e-graph must be isomorphic to the reference.",
 state=["SynthAnalysis data of every e-class"], observe=["EGraph classes and data"])

prop("R01", "Rules mean exactly their text",
 "Parsing a rule text gives the rule with exactly its two sides (both directions for <=>), and anything without an arrow is rejected; the rule's name, printed form and rewrite all denote the same directed rule, and applying it equates instances of its left side with the corresponding instance of its right side and nothing else. Generalising a pair of terms renames variables consistently and injectively on both sides in order of first occurrence, and instantiating undoes it up to renaming. A rule with a right-side variable absent from the left is never constructed.",
 [IN], "all rule texts, terms and pairs of terms",
 "Three fixed rule texts are parsed in tests.",
 ["src/enumo/rule.rs", "src/language.rs"],
 [("Rule::from_string, Rule::new, Rhs::apply_one, apply_pat", "src/enumo/rule.rs"), ("SynthLanguage::generalize/instantiate", "src/language.rs")],
 level="exploration", technique="exhaustive enumeration of rule texts and terms over a bounded grammar against independent parsing and a reference e-graph",
 note="All pairs of patterns up to size 3 and all arrow spellings; rewrite effect compared with one round of the naive e-graph.",
 observe=["Rule fields", "Rewrite::search/apply"])

prop("R02", "A ruleset is an insertion-ordered set of directed rules",
 "After any sequence of add, add_all, extend, union, remove_all and partition, a ruleset contains exactly the rules the operations denote, each once, and (while nothing was removed) in the order of first insertion; union and partition leave their operands unchanged. The number of bidirectional rules counts a rule and its reverse once, and the printed form lists each exactly once.",
 [HI], "all histories of ruleset operations",
 "One test does a handful of operations on rulesets of at most four rules.",
 ["src/enumo/ruleset.rs"],
 [("Ruleset::add/extend/union/remove_all/partition/bidir_len/pretty_print", "src/enumo/ruleset.rs")],
 technique="explicit-state exploration of all operation histories to a depth bound, lockstep with an ordered-set model",
 note="46 operations to depth 3 (4) plus histories over rulesets of up to 500 rules.",
 state=["Ruleset.0"], observe=["Ruleset accessors, printed text"])

prop("R03", "Parallel partition and derivation are independent of the schedule",
 "Whatever order or interleaving the worker threads evaluate the predicate in, partition calls it exactly once per rule and returns exactly the satisfying and the non-satisfying rules, each half in the original order; derivability of a set of rules equals deriving each rule alone.",
 [SC], "all thread schedules of the parallel predicate evaluation",
 "Tests run under whatever schedule the machine gives and only look at set sizes.",
 ["src/enumo/ruleset.rs"],
 [("Ruleset::partition (rayon)", "src/enumo/ruleset.rs"), ("Ruleset::derive", "src/enumo/ruleset.rs")],
 technique="stateless exploration of every interleaving of predicate steps imposed on the real thread pool by a controlled scheduler",
 note="All interleavings for small sets; larger sets run on 1 to 9 threads without imposed schedule.",
 observe=["partition/derive results"])

prop("S01", "Simple scheduling performs exactly the permitted rounds",
 "Running a ruleset with simple scheduling for k iterations yields exactly the e-graph obtained by k rounds in which every rule is applied to every match present at the start of the round (fewer if nothing changes any more). Resource limits on nodes and matches only ever make the result smaller: no scheduler equates terms, or adds terms, that the unlimited run does not. The e-graph given as input is left unchanged.",
 [HI, CO, IN], "all e-graphs, rulesets and limits",
 "Recipe tests observe only how many rules come out at the end.",
 ["src/enumo/scheduler.rs", "src/lib.rs"],
 [("Scheduler::run_internal, mk_runner, Simple", "src/enumo/scheduler.rs"), ("Limits", "src/lib.rs")],
 technique="lockstep exploration of all (start e-graph, ruleset, rounds) against a naive e-graph, compared up to isomorphism",
 note="13 rules in all subsets of up to 2 (3) on all small start graphs; tight limits checked by embedding.",
 observe=["Scheduler::run result"])

prop("S02", "Compression merges exactly the classes the rules equate",
 "Compressing an e-graph with a ruleset adds no term and no class: the result is the input with exactly those classes merged that running the rules for the permitted rounds on a copy equates, closed under congruence. Merged classes carry the merged data of their members.",
 [HI, CO, IN], "all e-graphs, rulesets and limits",
 "Tests check numbers of classes for a few inputs and compare candidate counts.",
 ["src/enumo/scheduler.rs"],
 [("Scheduler::Compress, get_unions", "src/enumo/scheduler.rs")],
 technique="lockstep exploration of all (start e-graph, ruleset, rounds) against a naive e-graph, compared up to isomorphism",
 note="12 rules in all subsets of up to 2 (3); up to 200 classes merging at once.",
 observe=["Scheduler::run result"])

prop("S03", "Saturating scheduling uses all rules and grows only by design",
 "A rule classified as saturating never adds a class to any e-graph it is applied to. The saturating scheduler compresses with the saturating rules to their fixpoint before and after each application of the other rules, so that its result is exactly the documented composition of phases, for any mix of rules and any iteration limit.",
 [HI, CO, IN], "all rules, e-graphs and limits",
 "Tests never run this scheduler directly.",
 ["src/enumo/scheduler.rs", "src/enumo/rule.rs"],
 [("Scheduler::Saturating", "src/enumo/scheduler.rs"), ("Rule::is_saturating", "src/enumo/rule.rs")],
 technique="lockstep exploration of all (start e-graph, mixed ruleset, rounds) plus enumeration of all small rules against the definition of saturating",
 note="Every rule over patterns up to size 5 classified; 12 rules in all subsets of up to 3 (4).",
 observe=["Scheduler::run result", "Rule::is_saturating"])

prop("S04", "Undefinedness is respected during equality saturation",
 "In a domain with partial operators, running rules that hold wherever both sides are defined never makes two terms with conflicting vectors equal, never changes a defined vector cell, and only fills an undefined cell with the value some equal term has there. A rule does not fire on a match whose right-hand side would be undefined everywhere while the left is not.",
 [HI, IN], "all domains with partial operators, e-graphs and rulesets",
 "The rational recipe has one partial operator and tests only count rules.",
 ["src/enumo/rule.rs", "src/language.rs", "src/enumo/scheduler.rs"],
 [("Rhs::apply_one definedness test", "src/enumo/rule.rs"), ("SynthAnalysis::merge", "src/language.rs")],
 technique="exploration of all (workload, ruleset, scheduler, rounds) over a family of partial operators, with class invariants checked in every reached e-graph",
 note="6 operator signatures; every rule over small patterns that has a total completion, alone, in pairs and in bulk.",
 observe=["class data after Scheduler::run"])

prop("D01", "Derivability answers exactly whether a rule follows",
 "A rule is reported derivable from a ruleset if its two sides become equal when the ruleset is applied under the given limits to the e-graph of its left side (or of both sides), and not otherwise; a positive answer is always a consequence of the rules. Partitioning a ruleset by derivability gives each rule the answer it gets alone and changes neither set.",
 [IN, CO], "all rulesets, rules, limits and both derivation types",
 "Tests check one derivable rule and count derivable rules of fixed rulesets.",
 ["src/enumo/ruleset.rs", "src/enumo/scheduler.rs"],
 [("Ruleset::can_derive, derive", "src/enumo/ruleset.rs"), ("Scheduler::run_derive early stop", "src/enumo/scheduler.rs")],
 technique="exploration of every (ruleset, query, rounds, type) against a breadth-first reference saturation",
 note="12 rules in all small subsets against all small queries, iteration bounds 0..3.",
 observe=["can_derive, derive"])

prop("C01", "Vector matching proposes exactly the compatible pairs",
 "Candidates from characteristic vectors are exactly the pairs of distinct e-classes whose vectors agree wherever both are defined and are both defined somewhere, each pair in both orientable directions, represented by smallest terms of the classes. No pair is lost because of where undefined entries fall, and none is proposed without a sample on which both are defined.",
 [IN], "all e-graphs and vector contents",
 "One unit test matches a handful of classes; recipes count the rules that survive.",
 ["src/enumo/ruleset.rs"],
 [("Ruleset::cvec_match (by_first bucketing, compare)", "src/enumo/ruleset.rs"), ("add_from_recexprs", "src/enumo/ruleset.rs")],
 level="exploration", technique="exhaustive enumeration of all sets of vectors and of terms over partial operators, against the definition",
 note="All sets of up to 4 vectors of length up to 4 over three values; exact comparison over every choice of smallest representatives.",
 observe=["Ruleset::cvec_match"])

prop("C02", "Fast matching proposes exactly the pairs with identical vectors",
 "Fast candidate generation proposes exactly the pairs of distinct e-classes with identical vectors that are defined somewhere, each pair in both orientable directions and represented by smallest terms. Its candidates are always among those of full matching.",
 [IN], "all e-graphs and vector contents",
 "Tests only count rules at the end of recipes.",
 ["src/enumo/ruleset.rs"],
 [("Ruleset::fast_cvec_match", "src/enumo/ruleset.rs"), ("Signature::is_defined", "src/language.rs")],
 level="exploration", technique="exhaustive enumeration of all multisets of vectors and of terms over partial operators, against the definition",
 note="All multisets of up to 5 vectors of length up to 3; vectors up to length 20 differing in one place.",
 observe=["Ruleset::fast_cvec_match"])

prop("C03", "Comparing two e-graphs proposes exactly the new equalities",
 "Candidates extracted from an e-graph and a later version of it are exactly the pairs of classes that were different before and are equal afterwards and both have terms without disallowed operators, represented by smallest such terms, in every orientable direction. Terms that exist only in the later graph or contain disallowed operators never appear.",
 [IN, HI], "all pairs of an e-graph and a later version",
 "Only one recipe (trig) runs this code; its test counts rules.",
 ["src/enumo/ruleset.rs", "src/lib.rs"],
 [("Ruleset::extract_candidates", "src/enumo/ruleset.rs"), ("ExtractableAstSize", "src/lib.rs")],
 level="exploration", technique="exhaustive enumeration of start graphs and of the merges or rulesets leading to the later graph, against the definition",
 note="All sets of up to 4 terms of an 11-14 term pool with disallowed operators; all subsets of up to 3-4 growing and compressing rules.",
 observe=["Ruleset::extract_candidates"])

prop("M01", "Only validated rules are learned",
 "Whatever the candidates, prior rules and validator verdicts, every rule selection returns was one of the candidates and was validated as sound; rules that are invalid or of unknown validity are never returned and never used to discard other candidates. Exactly candidates that failed validation are reported as invalid.",
 [IN, FA], "all candidate sets, prior sets and validator answers, including unknown",
 "Tests have no invalid candidates under control and never an unknown verdict.",
 ["src/enumo/ruleset.rs", "src/enumo/rule.rs"],
 [("Ruleset::select, minimize", "src/enumo/ruleset.rs"), ("Rule::is_valid", "src/enumo/rule.rs")],
 technique="explicit-state exploration of all candidate sets, priors and verdict assignments to a bound on the real selection loop",
 note="All subsets of up to 3 (4) of 16 candidates x 5 priors x all one- and all-fault verdict patterns.",
 observe=["Ruleset::minimize"])

prop("M02", "Selection never loses a sound candidate",
 "After selection every candidate is accounted for: it was chosen, it is a prior rule, it failed validation, or it follows from the prior and chosen rules. In particular a sound candidate is not dropped because its reverse, or another candidate, was rejected.",
 [IN, FA], "all candidate sets, prior sets and validator answers",
 "Losing a rule changes a count that tests compare only for a few large recipes.",
 ["src/enumo/ruleset.rs"],
 [("Ruleset::shrink, select, minimize", "src/enumo/ruleset.rs")],
 technique="explicit-state exploration of all candidate sets, priors and verdicts; every dropped candidate must be proved by reference saturation",
 note="Inputs of M01; the reference saturates all candidates' terms with prior and chosen rules.",
 observe=["Ruleset::minimize"])

prop("M03", "Selection is best-first and leaves no redundant rule",
 "Selection repeatedly takes a candidate of the best score (more variables, fewer constants, smaller, fewer operators), with its reverse when that is a candidate too, and drops candidates that follow from what was chosen so far and the prior rules. No rule chosen after the first follows, under the same limits, from the prior rules and the rules chosen before it.",
 [IN], "all candidate sets and prior sets",
 "Recipe tests compare counts for a few candidate sets; which rules are chosen is not checked.",
 ["src/enumo/ruleset.rs", "src/enumo/rule.rs"],
 [("Rule::score", "src/enumo/rule.rs"), ("Ruleset::select, shrink", "src/enumo/ruleset.rs")],
 technique="explicit-state exploration of a nondeterministic selection model (all tie-breaks); the real outcome must be one of the model's",
 note="Inputs of M01 where no side repeats a constant.",
 observe=["Ruleset::minimize"])

prop("X01", "Inference over a workload is sound and complete",
 "Every rule inferred from a workload holds for all values, both sides being defined for the same values. Any two terms of a fully enumerated workload that denote the same function can be proved equal from the prior and the inferred rules, whenever their smallest representatives can be oriented. This holds with full and with fast matching and with prior rules that already prove part of it; with full matching it also holds for terms that merely agree wherever both are defined (and are both defined somewhere), if the validator accepts them. Rules relate terms of the workload only.",
 [IN, CO, PR], "all domains, term spaces, priors and matching modes",
 "Recipe tests compare with a fixed baseline for six domains and allow misses.",
 ["src/recipe_utils.rs", "src/enumo/ruleset.rs", "src/enumo/scheduler.rs"],
 [("run_workload", "src/recipe_utils.rs")],
 level="exploration", technique="exhaustive enumeration of all operator tables of a family of finite domains; rules judged by exhaustive evaluation and proofs by naive saturation",
 note="Every unary and binary operator table on {0,1,undefined}, several combinations, three priors.",
 observe=["run_workload"])

prop("X02", "Fast-forwarding learns exactly what exploration reveals",
 "Fast-forwarding compresses the workload with the allowed prior rules only, grows it with the exploratory rules, then compresses it with all rules, and learns from exactly the equalities over allowed operators that the last two phases add. Every learned rule is one of those equalities and was accepted by the validator; every such equality that was accepted is learned or follows from the prior and learned rules. Disallowed prior rules take part in the last phase only, and the prior rules are not part of the result.",
 [IN, CO, FA], "all workloads, prior rules, exploratory rules and validator answers",
 "Only the trig recipe runs it, with one fixed set of exploratory rules, and its test counts rules.",
 ["src/recipe_utils.rs", "src/enumo/ruleset.rs", "src/enumo/scheduler.rs"],
 [("run_fast_forwarding", "src/recipe_utils.rs"), ("Ruleset::extract_candidates", "src/enumo/ruleset.rs")],
 technique="exploration of all (workload, exploratory rules, prior rules, rounds) in lockstep with the documented phases on a naive e-graph",
 note="5 workloads x subsets of 7 exploratory and 10 prior rules x 1-3 rounds, with validator faults and translation chains.",
 observe=["run_fast_forwarding"])

prop("X03", "Recursive inference covers the whole language up to the bound",
 "Recursive rule inference over a language up to bound n returns the prior rules and everything it returns for smaller bounds, plus sound rules all of whose terms belong to the language. For a language of total operators any two terms of the language within the bound that contain a variable and denote the same function can be proved equal from the result, whenever an orientable rule between them exists. This holds for any number of arities, including none, and for arities without operators.",
 [IN, CO, PR], "all languages, metrics, bounds and priors",
 "One test runs it for one language and counts the rules.",
 ["src/recipe_utils.rs"],
 [("recursive_rules, base_lang, iter_metric", "src/recipe_utils.rs")],
 level="exploration", technique="exhaustive enumeration of operator sets, metrics, bounds and priors; rules judged by exhaustive evaluation, proofs by naive saturation over the independently generated language",
 note="0-4 arities over {0,1,undefined}, 3 metrics, every bound whose language has at most 150 (400) terms. Completeness is not required with partial operators (fast matching documents that it misses those).",
 observe=["recursive_rules"])

prop("X04", "Rule inference is reproducible",
 "Running the same inference again, in the same process after other work, in a fresh process, or with a different number of worker threads gives the same rules in the same order.",
 [SC, CO], "all repetitions, worker counts and preceding work in the process",
 "Tests run every recipe once and compare counts.",
 ["src/enumo/ruleset.rs", "src/enumo/scheduler.rs", "src/recipe_utils.rs"],
 [("insertion-ordered maps and deterministic candidate order", "src/enumo/ruleset.rs"), ("node-limited, not hash-ordered, saturation", "src/enumo/scheduler.rs")],
 level="exploration", technique="exhaustive enumeration of a bounded family of inference jobs, each under every run configuration; all results must coincide",
 note="About 300 jobs x 1, 2, 3 and 8 threads x after other work x fresh process. Thread schedules inside a pool are those of the machine; R03 enumerates them for the one parallel operation.",
 observe=["run_workload, run_fast_forwarding, recursive_rules, derive"])

prop("X05", "Each phase of inference runs under the limits given for it",
 "Running inference is compressing the workload's e-graph with the prior rules under the first limits, matching, and selecting under the second limits; fast-forwarding likewise explores and compresses under the first limits and selects under the second, and recursive inference runs each level on top of everything learned at the levels below. This holds for every combination of limits, whether or not a limit is reached: the rules learned are exactly those of the steps run one by one. Inference over a workload fails exactly when nothing can be learned.",
 [IN, CO], "all workloads, prior and exploratory rules, pairs of limits and matching modes",
 "Recipes in the tests give both phases the same limits, and none looks at what a limit cuts off.",
 ["src/recipe_utils.rs", "src/enumo/scheduler.rs", "src/enumo/ruleset.rs"],
 [("run_workload, run_fast_forwarding, recursive_rules", "src/recipe_utils.rs"), ("Limits", "src/lib.rs")],
 level="exploration", technique="exhaustive enumeration of pairs of limits over bounded workloads and rule sets; the recipe is compared with its documented steps run one by one",
 note="The single steps are the library's own; each is bound to a model by W04, S01, S02, C01-C03 and M01-M03.",
 observe=["run_workload, run_fast_forwarding, recursive_rules"])

prop("P01", "What is printed is what was computed",
 "Printing a workload prints each of its terms exactly as often as it occurs, in order, one per line. The derivability report of two rule files names them, counts the rules of each and those of the second that do and do not follow from the first under the deriving limits and the given derivation type, and lists exactly the missing ones. After inference and fast-forwarding the printed summary counts exactly the returned rules, bidirectional and total, and the prior rules, and lists the returned rules.",
 [IN], "all workloads, pairs of rule files and inference runs",
 "No test looks at printed output.",
 ["src/enumo/workload.rs", "src/enumo/ruleset.rs", "src/recipe_utils.rs", "src/lib.rs"],
 [("Workload::pretty_print", "src/enumo/workload.rs"), ("Ruleset::print_derive, pretty_print", "src/enumo/ruleset.rs"), ("summary of run_workload, run_fast_forwarding", "src/recipe_utils.rs"), ("Display for Phase", "src/lib.rs")],
 technique="exhaustive enumeration of bounded workloads and pairs of rule files; the captured output is compared with the reference saturation and the returned values",
 note="The wording is free: file names, numbers in order and the listed rules are compared.",
 observe=["standard output"])

prop("B01", "Bit-vector arithmetic is arithmetic modulo 2^N",
 "Every bit-vector operator computes, at every width from 1 to 128, the result of its mathematical definition modulo 2^N, shifts by at least N included; evaluation in an e-graph applies it sample by sample and leaves undefined exactly the samples on which an argument is undefined. A literal denotes its value in decimal and in binary notation, prints back to the same value, and malformed text is rejected without a panic.",
 [IN], "all widths, operators, operands and literals",
 "Tests evaluate a handful of 4-bit operations; widths from 65 bits on run nowhere.",
 ["src/bv.rs"],
 [("BVImpl arithmetic, masks and shifts", "src/bv.rs"), ("impl_bv eval", "src/bv.rs"), ("FromStr/Display", "src/bv.rs")],
 level="exploration", technique="exhaustive enumeration of operand pairs at small widths and of a boundary lattice at large widths, against big-integer arithmetic",
 note="Complete for widths up to 6 (8); about 100 boundary values squared for 12 widths up to 128.",
 observe=["BV operators", "SynthLanguage::eval", "Display/FromStr"])

prop("B02", "The bit-vector validator agrees with exhaustive evaluation",
 "The validator calls a bit-vector rule valid exactly if both sides are equal for every assignment of the variables, at every width, and invalid exactly if some assignment distinguishes them. In particular literals and shift amounts mean the same to the validator as to evaluation.",
 [IN], "all pairs of terms at all widths",
 "Tests never validate a false rule; a wrong translation of one operator changes only counts.",
 ["src/bv.rs"],
 [("impl_bv to_z3, validate", "src/bv.rs")],
 level="exploration", technique="exhaustive enumeration of term pairs, the validator's verdict compared with evaluation on all assignments",
 note="Widths 1-4 (thorough 5 and 8) over all ten operators; near-miss ground facts and laws up to 128 bits. The solver inside is the code under test, the oracle is enumeration.",
 observe=["SynthLanguage::validate"])

prop("B03", "Bit-vector inference is sound and complete at every width",
 "Every rule inferred over a bit-vector domain, by inference over a workload or recursively, with any prior rules and either matching mode, holds for every assignment of its variables at that width, also where the sampled values do not tell its sides apart. Any two terms of the enumerated workload that are equal for every assignment can be proved equal from the prior and the inferred rules, whenever their smallest representatives can be oriented, however many other terms agree with them on the sampled values. Prior rules are not returned as new.",
 [IN], "all workloads, widths, prior rules and matching modes",
 "Tests infer rules at widths 4 to 128 and check counts and derivability, not truth on all values; no test asks what was missed.",
 ["src/bv.rs", "src/recipe_utils.rs", "src/enumo/ruleset.rs"],
 [("impl_bv initialize_vars, eval, validate", "src/bv.rs"), ("run_workload, recursive_rules", "src/recipe_utils.rs"), ("cvec_match, fast_cvec_match, minimize", "src/enumo/ruleset.rs")],
 level="exploration", technique="exhaustive enumeration of bounded term spaces over every operator and pair of operators at widths 1-4 (thorough 1-5 and 8), rules evaluated on all assignments, completeness by naive saturation",
 note="The only domain with sampled vectors: candidates may be false, groups of classes mix different functions. Groups of up to 12 terms of 6 functions that the samples do not tell apart.",
 observe=["run_workload, recursive_rules"])

prop("L01", "The experiment log is append-only and its rows tell the truth",
 "Every logging call leaves all earlier rows of the log unchanged and in order and appends exactly one row. A row names what was run, lists exactly the given rules, and its derivability columns list exactly the rules that do and do not follow, in the right direction and for the right derivation type; comparisons on the skip list are empty in the skipped direction only. Bit-vector rows contain exactly the ported rules that validation accepts. A log that is not an array of rows is left as it is, and the failed call does not affect later ones.",
 [HI, IN], "all histories of logging calls and all logged rulesets",
 "Tests write rows but never read the log.",
 ["src/logger.rs", "src/util.rs", "src/lib.rs"],
 [("add_json_to_file", "src/logger.rs"), ("write_baseline, write_bv_derivability, write_ff_phase", "src/logger.rs"), ("count_lines", "src/lib.rs")],
 technique="explicit-state exploration of all histories of logging calls to a depth bound; each new row recomputed by an independent model",
 note="About 180 operations on 5 initial logs and every history of 2-3 (4) of 8 operations.",
 state=["nightly/data/output.json"], observe=["nightly/data/output.json"])

prop("L02", "The experiment log survives crashes, I/O errors and concurrent appends",
 "If the process ends, or a file operation fails or is cut short, at any point of a logging call, the log afterwards holds every row logged before, in order, and at most the row being written, and later calls append to it normally. A call that returned has its row in the log. Rows appended from several threads are each logged exactly once under every interleaving.",
 [CR, FA, SC], "all crash points, torn writes, I/O errors and thread interleavings of logging calls",
 "No test stops the program half-way, fails a system call or logs from two threads.",
 ["src/logger.rs"],
 [("add_json_to_file: lock, temporary file, rename", "src/logger.rs")],
 technique="exploration of every crash point, torn write and I/O error of the real system calls, and of every bounded schedule of threads at system-call granularity",
 note="Crash = end of process (no power loss). All fault points of two appends, about 16 (400) torn offsets per write; 2-4 threads with bounded switches.",
 state=["files in nightly/data"], observe=["nightly/data/output.json"])
