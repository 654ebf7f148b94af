#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})
PR="src/parsers/"; TY="src/types/"

p("P01","A valid domain is parsed completely and faithfully",
 "Every domain description that is valid PDDL 3.1 (sections in the standard order) is accepted with nothing left over. The returned domain holds exactly what the text says: its name, extended domains, requirements, types, constants, predicates, functions, constraints and every derived predicate, action and durative action, each in source order, none lost, duplicated, merged or altered. A section that is absent from the text is reported as empty.",
 ["inputs"],"all syntactically valid PDDL 3.1 domain texts, any combination and size of sections",
 "Tests parse a handful of fixed domains (briefcase world and doc examples) and mostly compare counts; the guarantee ranges over every combination, order and size of sections.",
 [PR+"domain.rs",PR+"structure_def.rs",PR+"action_def.rs",PR+"da_def.rs",PR+"derived_predicate.rs",TY+"domain.rs"],
 [("section sequence of the domain parser",PR+"domain.rs"),("domain accessors",TY+"domain.rs")],
 ["result of parsing a whole domain text, read through the public accessors"])
p("P02","A valid problem is parsed completely and faithfully",
 "Every problem description that is valid PDDL 3.1 (sections in the standard order) is accepted with nothing left over. The returned problem holds exactly what the text says: name, domain name, requirements, objects, initial state, goal, constraints, metric and length bounds, in source order, none lost, duplicated, merged or altered. An optional section that is absent from the text is reported as empty or absent.",
 ["inputs"],"all syntactically valid PDDL 3.1 problem texts, any combination and size of sections",
 "Tests parse two fixed problems; the guarantee ranges over every combination of optional sections, element kinds and sizes.",
 [PR+"problem.rs",PR+"init_def.rs",PR+"goal_def.rs",PR+"length_spec.rs",PR+"metric_spec.rs",PR+"objects_def.rs",TY+"problem.rs"],
 [("section sequence of the problem parser",PR+"problem.rs"),("problem accessors",TY+"problem.rs")],
 ["result of parsing a whole problem text, read through the public accessors"])
p("P03","Typed declarations give every element its declared type",
 "In every list of types, constants, objects, parameters, predicate or function declarations, each element is returned once, in source order, with the type written after the first following dash, or with the default type (object, and number for functions) if no dash follows. An alternative type (either ...) keeps all its members in order. This holds for any length of list and any mix of typed groups.",
 ["inputs"],"all typed lists: any grouping, length, type names, either-lists, and every declaration section and parameter list that contains one",
 "Tests use lists of two or three elements with one or two groups; grouping, defaulting and either-types must work for every mix and length.",
 [PR+"typed_list.rs",PR+"function_typed_list.rs",PR+"type.rs",PR+"primitive_type.rs",PR+"types_def.rs",PR+"constants_def.rs",PR+"objects_def.rs",PR+"predicates_def.rs",PR+"functions_def.rs",TY+"typed_list.rs",TY+"type.rs"],
 [("explicit groups followed by an implicitly typed tail",PR+"typed_list.rs"),("function result types",PR+"function_typed_list.rs")],
 ["typed elements of parsed declarations"])
p("P04","Conditions and goals keep their logical structure",
 "Every condition or goal built from atoms, equality, numeric comparisons, and, or, not, imply, exists, forall and preferences is returned with exactly the same connectives, operands, operand order, quantified variables and preference names. Conjunctions of goals or preconditions are flattened without losing or reordering a conjunct. This holds at every nesting depth and list length, in preconditions, goals, derived predicates and conditional effects alike.",
 ["inputs"],"all goal and precondition expressions, at any nesting depth, in every place they may occur",
 "Tests cover each connective once with small fixed operands; nesting, mixing and precedence of alternatives are unbounded.",
 [PR+"gd.rs",PR+"pre_gd.rs",PR+"pref_gd.rs",PR+"goal_def.rs",PR+"atomic_formula.rs",PR+"literal.rs",PR+"term.rs",PR+"f_comp.rs",PR+"derived_predicate.rs",TY+"gd.rs",TY+"pre_gd.rs"],
 [("ordered alternatives of the goal grammar",PR+"gd.rs"),("flattening of conjunctions",PR+"pre_gd.rs")],
 ["goal trees of parsed fragments and documents"])
p("P05","Action effects keep their meaning",
 "Every effect is returned with exactly the adds, deletes, numeric updates (with the written operator), object assignments, universal and conditional effects of the text, in source order. A delete is never reported as an add, an update never with another operator, target or value, and conditions stay attached to their own effects. A missing or empty precondition or effect is reported as empty or absent.",
 ["inputs"],"all effect expressions and action definitions, any nesting of forall/when/and, every assignment operator and operand shape",
 "Tests show one example per effect form; effects combine and nest without bound and several alternatives overlap textually.",
 [PR+"effects.rs",PR+"c_effect.rs",PR+"p_effect.rs",PR+"cond_effect.rs",PR+"assign_op.rs",PR+"action_def.rs",TY+"c_effect.rs",TY+"p_effect.rs",TY+"effects.rs",TY+"action_definition.rs"],
 [("ordered alternatives of the effect grammar",PR+"p_effect.rs"),("optional precondition/effect bodies",PR+"action_def.rs")],
 ["effects of parsed fragments, actions and domains"])
p("P06","Durative actions keep times, durations, conditions and effects",
 "Every durative action is returned with exactly the duration constraints (operator, start/end marker, value), timed conditions (at start, at end, over all, with preferences) and timed, conditional, universal and continuous effects of the text, in source order. No time marker, comparison operator or operand is lost, swapped or altered. Empty durations, conditions and effects are reported as absent.",
 ["inputs"],"all durative action definitions and their fragments",
 "Tests hold a few fixed durative actions; markers, operators and nestings combine freely.",
 [PR+"da_def.rs",PR+"da_gd.rs",PR+"da_effect.rs",PR+"timed_gd.rs",PR+"timed_effect.rs",PR+"pref_timed_gd.rs",PR+"duration_constraint.rs",PR+"simple_duration_constraint.rs",PR+"f_assign_da.rs",PR+"f_exp_t.rs",PR+"d_op.rs",PR+"d_value.rs",TY+"da_def.rs"],
 [("durative action grammar",PR+"da_def.rs"),("timed effect alternatives",PR+"timed_effect.rs")],
 ["durative parts of parsed fragments and domains"])
p("P07","Arithmetic and metrics keep operators, operands and order",
 "Every numeric expression, comparison, assignment value, duration value and plan metric is returned with exactly the operators, operands, operand order and grouping of the text, including unary minus and sums and products of three or more operands. A metric keeps its direction, its total-time and preference-violation terms and its function arguments. This holds at any nesting depth.",
 ["inputs"],"all arithmetic and metric expressions at any depth and arity",
 "Tests use one- or two-level expressions; operator/operand mix-ups may appear only at particular arities, depths or operator combinations.",
 [PR+"f_exp.rs",PR+"f_exp_da.rs",PR+"f_exp_t.rs",PR+"metric_f_exp.rs",PR+"metric_spec.rs",PR+"f_comp.rs",PR+"f_head.rs",PR+"binary_op.rs",PR+"multi_op.rs",PR+"binary_comp.rs",TY+"f_exp.rs",TY+"metric_f_exp.rs"],
 [("binary / multi-operand / negation alternatives",PR+"f_exp.rs"),("metric alternatives",PR+"metric_f_exp.rs")],
 ["expression trees of parsed fragments and documents"])
p("P08","Trajectory constraints and preferences keep operators and arguments",
 "Every constraint is returned with exactly the modal operator written (always, sometime, within, at-most-once, sometime-after, sometime-before, always-within, hold-during, hold-after, at end), its time bounds and arguments in source order, and its quantifiers and preference names. A constraint nested inside another is returned as a nested constraint, not as a condition. Conjunctions of preferred constraints are flattened without losing or reordering one.",
 ["inputs"],"all trajectory constraints of domains and problems, any nesting and argument order",
 "Tests give one example per operator; the operators share prefixes and nest, so confusion depends on combinations.",
 [PR+"con_gd.rs",PR+"pref_con_gd.rs",PR+"domain_constraints_def.rs",PR+"problem_constraints_def.rs",TY+"con_gd.rs",TY+"pref_con_gd.rs"],
 [("modal operator alternatives",PR+"con_gd.rs"),("preference flattening",PR+"pref_con_gd.rs")],
 ["constraint trees of parsed fragments and documents"])
p("P09","Initial facts are recorded exactly",
 "Every initial-state element and timeless fact is returned once, in source order, as what it is: a true or negated fact, a timed fact with its time, a numeric value or an object value of a function with exactly its arguments. A numeric value is never taken for an object value nor a timed fact for an ordinary one. This holds for any number and mix of elements.",
 ["inputs"],"all init and timeless sections, any mix and number of element kinds",
 "Tests have short init sections; the element kinds overlap (at, =) and the list is unbounded.",
 [PR+"init_el.rs",PR+"init_def.rs",PR+"timeless_def.rs",PR+"basic_function_term.rs",PR+"literal.rs",TY+"init_el.rs",TY+"init_els.rs",TY+"timeless.rs"],
 [("ordered alternatives of initial elements",PR+"init_el.rs")],
 ["init elements of parsed fragments and problems"])
p("P10","Identifiers are preserved exactly, wherever they occur",
 "Every identifier in the text (names of domains, types, objects, predicates, functions, actions, variables, preferences) appears in the result with exactly the same spelling, including case, digits, dashes and underscores, whatever its length. Identifiers that begin with, end with or contain a keyword are still ordinary identifiers. Two identifiers are distinct in the result exactly when they are spelled differently in the text.",
 ["inputs","histories"],"all identifiers in all positions of valid texts, including keyword-like, very long and nearly equal ones, and whatever was parsed before",
 "Tests use short ordinary names; prefix-matching of keywords and name canonicalisation go wrong only for particular spellings.",
 [PR+"name.rs",PR+"variable.rs",PR+"primitive_type.rs",PR+"utilities.rs",PR+"metric_f_exp.rs",TY+"name.rs"],
 [("name recognition",PR+"name.rs"),("name storage and well-known names",TY+"name.rs")],
 ["names in parsed results, compared with the tokens of the text"])
p("P11","Numeric literals are read as the nearest representable value",
 "Every numeric literal (digits with an optional fraction) yields the single-precision number nearest to its decimal value, and every length bound yields exactly the integer written. A literal too large to represent is rejected with an error instead of a wrong value, an infinity or a crash. Constructing a number from a non-finite value through a fallible conversion reports an error.",
 ["inputs"],"all decimal literals of any length, in every position a number may occur, and all fallible number conversions",
 "Tests use a few short literals; rounding, overflow, long fractions and leading zeros need the whole literal space.",
 [PR+"number.rs",PR+"length_spec.rs",TY+"number.rs"],
 [("literal recognition and conversion",PR+"number.rs"),("finite-only construction",TY+"number.rs")],
 ["numbers in parsed results; results of number conversions"])
p("P12","Whitespace and comments never change the result",
 "Two texts with the same sequence of tokens, differing only in spaces, tabs, line breaks (LF or CRLF) and comments between tokens, parse to equal results. Whitespace and comments may appear between any two tokens, before the first and after the last, and none is needed next to a parenthesis that ends a token. A comment runs from a semicolon to the end of the line and its content, empty or not, has no effect.",
 ["inputs"],"all valid texts under all layouts: any whitespace, any comment text (including parentheses, keywords and non-ASCII), at any token boundary",
 "Tests place comments in a few spots of fixed files; layout interacts with every grammar rule separately.",
 [PR+"comments.rs",PR+"utilities.rs",PR+"empty_or.rs",PR+"atomic_formula.rs",PR+"function_term.rs"],
 [("whitespace/comment skipping",PR+"comments.rs"),("delimiters and separated lists",PR+"utilities.rs")],
 ["results of parsing the same token sequence under different layouts"])
p("P13","Malformed input is rejected",
 "A text that is not a valid domain or problem (a missing, extra or unbalanced parenthesis, a missing mandatory part, a misplaced or repeated section, a misspelled keyword, a wrong number or kind of operands, an illegal character) is never parsed completely: it yields an error or leaves the offending part unconsumed. In particular a malformed logical connective, quantifier or conditional is not accepted under another reading. The same holds for every individual construct parsed on its own.",
 ["inputs"],"all texts obtained by corrupting valid ones at any token, for whole documents and every fragment parser",
 "Tests have a few negative examples; acceptance of garbage depends on which alternatives happen to overlap.",
 [PR+"utilities.rs",PR+"gd.rs",PR+"domain.rs",PR+"problem.rs",PR+"atomic_formula.rs",PR+"requirements.rs"],
 [("delimited expressions and keyword matching",PR+"utilities.rs"),("ordered alternatives",PR+"gd.rs")],
 ["accept/reject result and remainder for corrupted texts"])
p("P14","Parsing consumes exactly the construct and reports the true remainder",
 "A successful parse of a construct followed by other text returns as remainder exactly that following text (up to layout), correctly located in the original input with its offset and line, and returns the same value as parsing the construct alone. Parsing from a string, from an already located piece of input, and with the convenience that drops the remainder all agree on success and on the value. Parsing the remainder can be continued, so a sequence of constructs is read one after the other.",
 ["inputs","histories"],"all constructs followed by arbitrary text; all ways of invoking a parser; all sequences of constructs",
 "Tests check values and rarely the remainder; over- or under-consumption depends on what follows.",
 [PR+"mod.rs",PR+"utilities.rs",PR+"domain.rs"],
 [("the parser trait and its provided methods",PR+"mod.rs"),("trailing layout handling",PR+"utilities.rs")],
 ["remainder and value of each parse"])
p("P15","No input makes a parser panic, crash or corrupt memory",
 "Parsing any text whatsoever (arbitrary bytes that form a string, truncated, spliced or corrupted documents, huge or deeply nested ones) returns a result or an error. It never panics, aborts, overflows an integer or the stack, or accesses memory wrongly. This holds for whole documents and for every fragment parser.",
 ["inputs"],"all strings, for every public parser",
 "Tests feed well-formed or mildly wrong input; panics hide behind unusual bytes, sizes and truncation points.",
 [PR+"mod.rs",PR+"number.rs",PR+"comments.rs",PR+"name.rs",TY+"number.rs",TY+"name.rs"],
 [("error propagation in place of panics",PR+"mod.rs"),("number construction",PR+"number.rs")],
 ["process status, panics and sanitizer reports while parsing"])
p("P16","Parsing effort stays bounded",
 "Every parse, successful or not, terminates with effort that grows about linearly with the number of elements in a list and polynomially (not exponentially) with nesting depth. This holds for every construct that can repeat or nest, whether the text is valid or broken at the end. Small inputs therefore never stall a parser.",
 ["inputs"],"all constructs that repeat or nest, at growing size and depth, valid and invalid",
 "Tests use tiny inputs on which exponential backtracking is invisible.",
 [PR+"f_exp.rs",PR+"f_exp_da.rs",PR+"metric_f_exp.rs",PR+"gd.rs",PR+"con_gd.rs",PR+"typed_list.rs",PR+"comments.rs",TY+"name.rs"],
 [("factoring and ordering of alternatives",PR+"f_exp.rs")],
 ["allocation counts and CPU time per parse as size and depth double"])
p("P17","Errors point at the fault",
 "When a text is rejected, every location in the error lies within the input, with offset, line and column that agree with each other and with the text. The reported location is never after the first token at which the text stops being valid. For a document with a single corrupted spot it is not before the top-level section containing that spot.",
 ["inputs"],"all rejected texts: every corruption position, layout and document shape",
 "Tests only assert that an error occurs.",
 [PR+"mod.rs",PR+"utilities.rs",PR+"domain.rs",PR+"problem.rs"],
 [("located input and greedy error accumulation",PR+"mod.rs")],
 ["locations carried by returned errors"])
p("P18","Names behave as their spelling",
 "Two names (and likewise variables, predicates, symbols and types made from them) are equal, hash equally and compare equal to strings exactly when they have the same spelling, no matter how they were created: from borrowed or owned strings, from static strings, by default or by parsing. Their length, emptiness and text are those of the spelling. With interning enabled, equal spellings created at run time share one stored string, however many names are alive and in whatever order they were made.",
 ["inputs","histories"],"all spellings, all ways of creating names, all histories of previously created names",
 "Tests compare a few names made the same way; sharing and cross-variant equality depend on creation history.",
 [TY+"name.rs",TY+"predicate.rs",TY+"variable.rs",TY+"pref_name.rs",TY+"function_symbols.rs",TY+"type.rs"],
 [("intern table with ordered lookup",TY+"name.rs")],
 ["equality, hashes, text and storage address of names"],
 [{"name":"intern table","meaning":"process-wide ordered list of shared strings","where":TY+"name.rs"}])
p("P19","Concurrent use gives the same results as sequential use",
 "Parsing and creating names from any number of threads at once yields on every thread exactly the results of doing the same alone: no result is wrong, lost or mixed up, and equal spellings still share one stored string. There is no data race or deadlock, and a failure in one thread (even a panic in caller code while a name is being created) does not prevent other threads from creating names.",
 ["schedules","inputs","fault_sequences"],"all interleavings of threads parsing documents and creating names, including panics in caller code",
 "The test suite is sequential with respect to the shared name table; interleavings are not explored at all.",
 [TY+"name.rs"],
 [("mutex around the intern table",TY+"name.rs")],
 ["per-thread results, storage addresses of names, race detector reports"],
 [{"name":"intern table","meaning":"process-wide ordered list of shared strings behind a lock","where":TY+"name.rs"}])
p("P20","Numbers obey the laws of ordering, equality and hashing",
 "Numbers are totally ordered by numeric value: equality, ordering, sorting and hashing all agree with each other and with the value, zero equals negative zero, and equal numbers hash equally. Comparing a number with a plain numeric value agrees with converting that value first. Conversions from integers and floats keep the (rounded) value, and only finite values can be held.",
 ["inputs"],"all pairs and triples of finite values, including zeros, subnormals, extremes and adjacent values, and all conversions",
 "Tests compare a few ordinary values; the laws quantify over all pairs and triples.",
 [TY+"number.rs"],
 [("manual equality/ordering/hash implementations",TY+"number.rs")],
 ["results of comparison, hashing and conversion"])
p("P21","Results compare equal exactly when they mean the same",
 "Two parsed results are equal exactly when their content is the same: parsing texts that differ in any name, number, operator, operand order, type, marker or structure gives unequal results, and texts that differ only in layout give equal ones. Equality is reflexive and symmetric, a clone equals its original, and cloning or comparing never alters a value. This holds for whole documents and each construct.",
 ["inputs"],"all pairs of parsed values, in particular pairs differing in one place",
 "Tests compare a parsed value with one expected value; a comparison that ignores a part is invisible to them.",
 [TY+"domain.rs",TY+"problem.rs",TY+"gd.rs",TY+"typed_list.rs",TY+"name.rs",TY+"number.rs"],
 [("structural equality and cloning of all types",TY+"mod.rs")],
 ["equality and clone results on parsed values"])
p("P22","Requirement implications follow the definition",
 "The effective requirements of a domain or problem are exactly what the declared keys stand for: shorthands (adl, quantified-preconditions, fluents) are replaced by all their members, timed initial literals also bring durative actions, every other key stands for itself, and no declaration at all means basic STRIPS. Asking whether one requirement covers another agrees with that expansion and is reflexive. The order and repetition of declared keys do not matter.",
 ["inputs"],"all sets, orders and repetitions of requirement keys, and all pairs of keys",
 "Tests check selected keys; the implication table is over all pairs and sets.",
 [TY+"requirement.rs",TY+"requirements.rs",PR+"requirements.rs"],
 [("expansion and containment tables",TY+"requirement.rs"),("effective set",TY+"requirements.rs")],
 ["effective sets and pairwise coverage answers"])
p("P23","The keyword vocabulary is one-to-one",
 "Every keyword value (requirement keys, assignment, arithmetic, comparison and duration operators, time markers, intervals, optimisation directions) prints as its PDDL keyword, and converting or parsing that keyword gives back the same value. Different values have different keywords, and any other text is refused by the conversion. Comparing a value with a string agrees with its printed form.",
 ["inputs"],"all keyword values and all strings",
 "Tests check some keywords in one direction; the round trip, distinctness and refusal must hold for all.",
 [TY+"requirement.rs",TY+"assign_op.rs",TY+"assign_op_t.rs",TY+"binary_op.rs",TY+"multi_op.rs",TY+"binary_comp.rs",TY+"d_op.rs",TY+"interval.rs",TY+"optimization.rs",TY+"time_specifier.rs",PR+"assign_op.rs",PR+"requirements.rs"],
 [("keyword tables and conversions",TY+"requirement.rs")],
 ["printed forms, conversions and parses of keywords"])
p("P24","Values built in code equal values parsed from text",
 "A domain, problem or any of its parts built through constructors, builder steps and conversions from the content of a text equals the value parsed from that text. Each builder step sets its own part and leaves all others unchanged, in any order of steps. Accessors and conversions return exactly the parts that were put in.",
 ["inputs","programs"],"all contents and all orders of builder steps and constructor/conversion routes",
 "Tests build a few values as expectations for fixed texts; they do not relate every builder step and conversion to every content.",
 [TY+"domain.rs",TY+"problem.rs",TY+"gd.rs",TY+"c_effect.rs",TY+"con_gd.rs",TY+"da_def.rs",TY+"metric_f_exp.rs",TY+"init_el.rs"],
 [("constructors, builders and conversions",TY+"mod.rs")],
 ["equality of built and parsed values; accessor results"])
p("P25","All views of a collection agree",
 "For every collection-like part (typed lists, requirement sets, declarations, init elements, effects, goals, constraints, types, durations) the length, emptiness, iteration by reference and by value, slices and single-element extraction all describe the same elements in the same order. A condition or constraint counts as empty exactly when it contains no atomic condition. Nothing is lost or repeated by iterating.",
 ["inputs"],"all collections of any size including zero and one, and all nested conditions",
 "Tests touch len() of some results; agreement of all views for all sizes and shapes is never checked.",
 [TY+"iterators.rs",TY+"type.rs",TY+"effects.rs",TY+"pre_gd.rs",TY+"pref_con_gd.rs",TY+"typed_list.rs",TY+"duration_constraint.rs",TY+"conditional_effect.rs",TY+"gd.rs",TY+"con_gd.rs"],
 [("derefs, iterators, length and emptiness methods",TY+"iterators.rs")],
 ["results of all views of each collection in parsed and built values"])
p("P26","Feature configurations agree",
 "The crate builds in every supported combination of its features (parser and interning on or off). With the parser enabled, parsing any text gives the same result, remainder or error location whether or not name interning is enabled. Values built in code behave the same in all configurations.",
 ["configurations","inputs"],"all feature combinations and all texts",
 "The test suite is only run with all features on.",
 ["Cargo.toml","src/lib.rs",TY+"name.rs",TY+"mod.rs"],
 [("feature gates",TY+"name.rs"),("optional parser module","src/lib.rs")],
 ["builds and parse results per configuration"])
p("P27","Results do not depend on history",
 "Parsing the same text always gives the same result: repeated, after any other parses, failed parses or names created before, while other results are alive or after they were dropped, in another thread or in another process. Earlier results are never changed by later operations.",
 ["histories","inputs"],"all sequences of parses (successful and failing), name creations, clones and drops before and after a parse",
 "Tests parse each text once in a fresh state; shared state could leak between parses.",
 [TY+"name.rs",PR+"mod.rs"],
 [("process-wide name table",TY+"name.rs")],
 ["results of the same parse at different points of random histories"],
 [{"name":"intern table","meaning":"process-wide list of shared strings that only grows","where":TY+"name.rs"}])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
