#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below (one source, so that they stay in step)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True

P = []
TECH = {"C02": "reference-model monitor over generated executions"}


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), note=""):
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None,
        }, "_note": note,
    })


DP, PP, LP, GR = "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/plan.py", "pddl/parser/grammar.lark"
TL, SY, UT, PB = "pddl/parser/typed_list_parser.py", "pddl/parser/symbols.py", "pddl/parser/_update_type_tags.py", "pddl/parser/base.py"
CO, AC, VA, FO, RE, CT = "pddl/core.py", "pddl/action.py", "pddl/_validation.py", "pddl/formatter.py", "pddl/requirements.py", "pddl/custom_types.py"
LB, LE, LF, LPR, LT, LH = (f"pddl/logic/{x}.py" for x in ("base", "effects", "functions", "predicates", "terms", "helpers"))
HB, HC = "pddl/helpers/base.py", "pddl/helpers/cache_hash.py"
INIT, MAIN = "pddl/__init__.py", "pddl/__main__.py"

prop("C01", "A parsed domain means exactly what its text says",
     "For every well-formed domain text, the parsed domain holds exactly the name, requirements, type hierarchy, typed constants, predicates, functions (with their result types), derived predicates and actions that the text writes, with every precondition and effect tree as written, operand for operand and in order. Nothing is dropped, added, renamed or moved, and an absent section is an empty one.",
     ["inputs", "programs"], "all domain texts of the accepted language (generated over all constructs, types, requirement sets and name shapes; fixture domains; accepted mutations of both)",
     "The tests parse about 35 fixture domains and compare a handful of hand-written texts; the combinations of construct, position, typing and section order are unbounded.",
     [DP, GR, TL, SY, UT, PB], [("grammar to object translation", DP), ("typed list scanning", TL), ("type tags of occurrences", UT)], ["accessors of the object returned by the domain parser"],
     note="random texts; features, positions and section orders counted in the evidence")
prop("C02", "A parsed problem means exactly what its text says",
     "For every well-formed problem text, the parsed problem holds exactly the name, domain name, requirements, typed objects, initial facts (negated facts and numeric assignments with their values included), goal and metric that the text writes. Nothing is dropped, added, renamed or moved, and an absent part is absent.",
     ["inputs", "programs"], "all problem texts of the accepted language (goals of every construct, numeric initialisations and metrics over nested expressions, typed and untyped objects; fixture problems; accepted mutations)",
     "The tests parse fixture problems for absence of errors and compare a few of them; goals, metrics and typed lists combine without bound.",
     [PP, GR, TL, SY, UT, PB], [("grammar to object translation", PP), ("typed list scanning", TL)], ["accessors of the object returned by the problem parser"],
     note="random texts")
prop("C03", "Plans: what is parsed is what is written, and printing keeps it",
     "For every well-formed plan text the parsed plan is the sequence of steps written, in order, each with its action name and its arguments in order. Printing a plan (parsed or built) and parsing the result gives an equal plan.",
     ["inputs", "programs"], "all plans: any number of steps (none included), any arity, repeated steps, layouts, names close to keywords; plans built from parts",
     "Two small plans are tested.",
     [LP, GR, CO], [("plan translation", LP), ("plan printing", CO)], ["accessors and text of plans"],
     note="random plans")
prop("C04", "A domain survives printing and parsing",
     "Printing any domain, parsed or built from parts, gives a domain text whose independent reading has exactly the content of the domain, and which the parser accepts and turns into an equal domain. Printing that domain again gives the same text.",
     ["inputs", "programs"], "all domains that can be parsed or built: any requirement set, hierarchy with several roots, typed and untyped constants, any formula, effect and expression tree, any number in double precision",
     "The fixture round trips reach only what the fixture domains use, and compare the library with itself.",
     [FO, CO, AC, LB, LE, LF, LPR, LT, DP], [("domain printing", FO), ("printing of formulas, effects and expressions", "pddl/logic"), ("parsing", DP)], ["text of domains", "equality and accessors of the domain parsed from it"],
     note="random domains, parsed and built")
prop("C05", "A problem survives printing and parsing",
     "Printing any problem, parsed or built from parts, with or without its domain attached, gives a problem text whose independent reading has exactly the content of the problem, and which the parser accepts and turns into an equal problem. When a domain is attached the text shows the domain's name and requirements.",
     ["inputs", "programs"], "all problems that can be parsed or built, with the domain attached through the constructor, through assignment, or not at all",
     "The fixture round trips reach only what the fixtures use; attached domains, numeric facts, negated facts and metrics are hardly printed.",
     [FO, CO, LB, LF, LPR, LT, PP], [("problem printing", FO), ("parsing", PP)], ["text of problems", "equality and accessors of the problem parsed from it"],
     note="random problems, parsed and built")
prop("C06", "Exactly the well-formed texts are accepted; the others get an orderly error",
     "A text that belongs to the accepted PDDL language is parsed, and any other text is refused with a parsing or PDDL error, never with an internal error, a wrong result or an endless run. In particular truncated texts, unbalanced parentheses, misplaced or missing sections, foreign characters, keywords used as names and malformed numbers are refused wherever they occur.",
     ["inputs"], "all texts: well-formed ones, and token- and character-level mutations, truncations and splices of generated and fixture texts",
     "The tests refuse about a dozen hand-written texts.",
     [GR, DP, PP, LP, SY, PB, TL, CT, "pddl/exceptions.py"], [("grammar", GR), ("translation errors", PB), ("keyword checks", CT)], ["outcome of parsing: object or kind of exception, within a time limit"],
     note="verdicts compared with an independent reader, which abstains on documented grey areas (DESIGN.md)")
prop("C07", "Layout and comments mean nothing",
     "Two texts with the same tokens, whatever the spaces, line breaks, tabs and comments between them, parse to equal objects that print alike. A text that is ill-formed stays refused in every layout.",
     ["inputs"], "all layouts (dense, one token per line, random white space, comments holding parentheses, quotes, keywords or unusual characters) of all texts of the three languages",
     "Fixtures have conventional layouts and hardly any comment.",
     [GR, PB], [("white space and comments", GR)], ["objects parsed from several layouts of the same tokens"],
     note="random layouts")
prop("C08", "The declared requirements decide which features a domain may use",
     "A domain that uses disjunction, implication, quantified conditions, equality, non-deterministic effects, a type hierarchy, typed terms, numeric functions or total-cost is accepted exactly when its declared requirements grant the feature (requirements that stand for others included), in every position where the feature can occur. Features that need no requirement are accepted under every requirement set.",
     ["inputs", "configurations"], "every feature in every position (preconditions, derived predicates, conditional effects, nested under other connectives and binders) under requirement sets, from text and from constructors",
     "The tests try a few (feature, requirement) pairs, each in one position.",
     [DP, VA, RE], [("requirement checks of the parser", DP), ("type checks", VA), ("implied requirements", RE)], ["acceptance or refusal of the domain"],
     note="decision table over features, positions and requirement sets, sampled; random domains judged by an independent reader")
prop("C09", "Type hierarchies have no cycle and no undeclared type is used",
     "A domain whose type hierarchy has a cycle (self-parenting included) or makes object a subtype is refused; any other hierarchy is accepted. A domain is refused when any of its terms, wherever it stands, has a type that is not declared, and when it has a typed term without typing; otherwise types do not prevent it.",
     ["inputs", "programs"], "all hierarchies (chains, forests, random graphs, hundreds of types) and all single typing faults at every position of a valid domain, from text and from constructors",
     "The tests have three cycles and some ten undeclared types at hand-picked positions.",
     [VA, CO, DP, HB], [("cycle search", HB), ("type checker", VA)], ["acceptance or refusal of the domain"],
     note="random graphs and fault positions against a graph oracle")
prop("C10", "Derived predicates agree with the predicate they define",
     "A derived predicate is accepted exactly when its name is declared with the same number of parameters and each of its parameter types is a declared type of that parameter or a direct or indirect subtype of one. The decision takes finite time whatever the hierarchy.",
     ["inputs"], "all hierarchies, all declarations and heads over them, alternatives of types (either) and untyped parameters included",
     "The tests try a handful of heads over one small hierarchy.",
     [DP], [("comparison of head and declaration", DP)], ["acceptance or refusal of the domain text"],
     note="random hierarchies against a subtype oracle")
prop("C11", "Every occurrence of a variable belongs to its innermost binder",
     "In a parsed domain or problem each occurrence of a variable carries the types given by the innermost enclosing binder (quantifier, parameter list, derived predicate head), whatever binders of the same name are around or were seen before. No type leaks from one action, derived predicate or quantifier to another, and constants are never confused with variables of the same name.",
     ["inputs", "programs"], "all nestings of binders over few names, with different types for the same name in different scopes",
     "No test has two binders of one name with different types.",
     [DP, PP, UT, LT], [("attaching the types of binders", UT), ("scopes of the parser", DP)], ["type tags of every term of the parsed objects"],
     note="random nested scopes, every occurrence compared")
prop("C12", "A parse depends on its text alone and leaves the interpreter as it was",
     "What a parser returns or raises for a text does not depend on what it or other parsers read before, failed texts included, and objects returned earlier do not change. Parsing, successful or not, leaves the interpreter's global settings as they were.",
     ["histories", "inputs"], "all sequences of good and failing texts given to shared parsers",
     "Every test makes one parse by a fresh parser.",
     [PB, DP, PP, HB], [("state of the transformers", DP), ("one parser per grammar", PB)], ["results of long histories, compared with the meaning of each text alone", "interpreter state before and after"],
     state=[("transformer state", "types, constants, scopes and requirements of the text being read", DP)],
     note="random histories")
prop("C13", "Concurrent use gives what sequential use gives",
     "Threads that each use a parser of their own, or that print, compare, hash, copy, check and instantiate shared objects, get exactly the results of a sequential run. No interleaving raises an error, loses a result or damages a shared object.",
     ["schedules"], "all interleavings of library operations in threads; forced switches inside the library at line granularity",
     "No test starts a thread.",
     [PB, DP, PP, LP, HC, LB, HB], [("lazily computed hashes", HC), ("per-parser state", PB)], ["results of operations in threads under perturbed schedules"],
     note="thousands of perturbed schedules; switches inside the library are counted")
prop("C14", "Instantiation replaces exactly the free occurrences of the parameters",
     "Instantiating an action, formula, effect, derived predicate or expression replaces every free occurrence of the mapped variables by the given terms and nothing else: bound occurrences, other variables, constants, operators, numbers and the order of operands stay. The instantiated action keeps its name and has the given terms; a wrong number of terms is refused; the original is untouched.",
     ["inputs", "programs"], "all actions and formulas, shadowed binders included, and all mappings, partial ones and ones to variables included",
     "The tests instantiate a few quantifier-free formulas.",
     [AC, LB, LE, LF, LPR], [("substitution", "pddl/logic"), ("action instantiation", AC)], ["the instantiated objects and the originals"],
     note="random formulas and mappings against a reference substitution")
prop("C15", "A plan fits exactly when each of its steps fits, and unfolds step by step",
     "A plan is accepted against a domain and a problem exactly when each step names an action of the domain, has its number of arguments and uses only objects of the problem or constants of the domain. Unfolding it in a domain gives, in order, each step's action instantiated with the step's arguments, and is refused exactly when a step names no action or has a wrong number of arguments.",
     ["inputs", "histories"], "all plans, with faults at any step (first, last, several), empty plans, repeated steps; from text and built",
     "The tests have two plans and no plan whose fault is late.",
     [CO, AC], [("plan check and unfolding", CO)], ["verdict of the check; list of instantiated actions"],
     note="random plans and faults against a step-by-step oracle")
prop("C16", "A problem fits a domain exactly when name, requirements and types agree",
     "Confronting a problem with a domain succeeds exactly when the names agree up to letter case, the problem asks for no requirement the domain lacks, and the types of its objects, facts and goal exist in the domain (which has typing if there are any). Checking, attaching at construction and assigning the domain decide alike, a refused assignment changes nothing, and contradictory or missing constructor arguments and initial facts that are not literals are refused.",
     ["inputs", "configurations"], "all pairs of a valid or mutated problem and a domain through every way of pairing them, and all combinations of constructor arguments",
     "The tests check a few pairs through one route.",
     [CO, VA, RE], [("problem check", CO), ("type checker", VA)], ["verdicts and the state of the problem afterwards"],
     note="random pairs against a set-theoretic oracle")
prop("C17", "Equality is equality of content, and equal objects hash alike",
     "Two objects of the same kind are equal exactly when their contents are equal: a difference in any name, term, type, operand, order of operands, operator or number makes them unequal (constants are identified by their names), and objects of different kinds are never equal. Equality is symmetric, inequality is its negation, and equal objects have equal hashes that never change.",
     ["inputs"], "all pairs of equal content built differently and of content that differs in one place, for every class of object",
     "The tests compare a few objects of some classes.",
     [LB, LE, LF, LPR, LT, AC, CO, HC], [("equality and hashing of every class", "pddl/logic"), ("cached hashes", HC)], ["==, != and hash, membership in sets and dictionaries"],
     note="random near pairs")
prop("C18", "Copies and pickles equal the original, in this interpreter and any other",
     "A copy, deep copy or pickled and reloaded object, under every protocol, is equal to the original, has the same content and text, and hashes like a fresh equal object of the interpreter it lives in, whatever its hash seed and whether or not the original was hashed before. Copying does not change the original.",
     ["inputs", "histories", "configurations"], "all objects, hashed or not before, all protocols, interpreters with different hash seeds",
     "The tests pickle nothing across interpreters.",
     [HC, LB, CO], [("removal of the cached hash from the state", HC)], ["objects reloaded in other interpreters"],
     state=[("cached hash", "hash of an immutable object, valid in one interpreter only", HC)],
     note="peer interpreters with other hash seeds")
prop("C19", "What is printed depends on the content alone",
     "The text of a domain, problem or formula is the same in every run: it depends neither on the hash seed of the interpreter, nor on the order in which unordered parts (types, constants, predicates, actions, objects, facts) were given or written, nor on what was printed before.",
     ["configurations", "inputs", "histories"], "all documents, interpreters with several hash seeds, all orders of construction and of the unordered parts of texts",
     "The tests run under one hash seed and print once.",
     [FO, CO, LB, LE, LT], [("sorting of unordered parts", FO)], ["texts printed in other interpreters and from other orders"],
     note="peer interpreters; permuted constructions and texts")
prop("C20", "Objects do not change behind one's back",
     "Reading, printing, comparing, hashing, copying, checking, instantiating and composing leave all objects involved as they were, and a collection given to a constructor can be changed afterwards without effect on the object. Objects that share parts stay independent.",
     ["histories", "inputs"], "all histories of such operations over shared objects",
     "The tests look at objects before operations, not after.",
     [CO, AC, LB, LE, LF, LPR, LT, HC, VA, FO], [("copying of arguments", CO), ("immutable parts", "pddl/logic")], ["content, text and hash of objects before and after"],
     note="random histories; snapshots around each operation")
prop("C21", "Composing and parsing formulas, expressions and effects keeps what they mean",
     "In every state of every world, a condition parsed or composed with the constructors and operators (and, or, imply, not, quantifiers, comparisons) is true exactly when what was written is true, an expression has the value of what was written, and an effect has the outcomes of what was written. Flattening, deduplication, printing and substitution never change truth, value or outcome.",
     ["inputs", "programs"], "all trees and all finite worlds (random states, values and universes, empty ones included)",
     "The tests compare representations of a few formulas, never their meaning.",
     [LB, LE, LF, DP, PP, SY], [("flattening and deduplication of operands", LB), ("operators", LF)], ["evaluation of the objects in random worlds"],
     note="random trees and worlds; an evaluator over accessors against an evaluator over the text's tree")
prop("C22", "The orders of the library are strict orders compatible with equality",
     "Wherever two objects of a class can be ordered (terms, predicates, functions, values, requirements, quantified conditions, derived predicates, conditional and universal effects), exactly one of less, equal and greater holds, the order is transitive, and sorting gives one result whatever the initial order.",
     ["inputs"], "all pairs and triples of near-equal objects of each ordered class",
     "The tests order a few constants.",
     [LT, LPR, LF, LB, LE, RE], [("comparison methods", "pddl/logic")], ["<, <=, >, >= and sorted"],
     note="pools of near-equal objects, all pairs and triples")
prop("C23", "Names are names: a letter, then letters, digits, - and _; and no keyword",
     "Every constructor that takes a name, type, variable or function name accepts exactly the ASCII words that start with a letter, go on with letters, digits, hyphens and underscores, and are not reserved words of PDDL (object as a type and total-cost as a function are allowed). An accepted name is kept as it was written.",
     ["inputs"], "all strings, line breaks, trailing characters, Unicode look-alikes and near-keywords included, at every place that takes a name",
     "The tests try a few names and keywords.",
     [CT, HB, LT, LPR, LF, AC, CO], [("name validation", CT), ("regular expression match", HB)], ["acceptance or refusal, and the name kept"],
     note="hostile strings at every place")
prop("C24", "CLI and file helpers print what was read, or fail; and touch no file",
     "The command line succeeds exactly when its files parse and fit together, prints the domain, problem and plan it read (nothing when asked to be quiet), and otherwise, as when its output cannot be written, ends with a non-zero status and a message. The helpers that read files give what the parser gives for the content of the file, and no operation changes, creates or leaves open any file.",
     ["inputs", "configurations", "fault_sequences"], "all combinations of files (valid, invalid, missing, unreadable, not fitting each other) and options",
     "The command line is not tested.",
     [MAIN, INIT], [("command line", MAIN), ("file helpers", INIT)], ["exit status, output, open descriptors and files of real runs"],
     note="real processes in scratch directories")
prop("C25", "The work is bounded by a low power of the size of the input",
     "Parsing, printing, comparing, hashing, copying, checking, instantiating and unfolding take a number of steps bounded by a low power (at most about a square) of the size of what they are given, however deep or wide it is: nothing is exponential in depth, and nothing runs forever. Names, numbers, blanks and comments of any length get an answer in time.",
     ["inputs"], "families of growing inputs (nesting of every construct, wide lists of every kind, chains and trees of types), random documents, long words",
     "The tests use small inputs and measure no cost; an exponential step at depth 3 is invisible.",
     [DP, PP, LP, FO, UT, LB, LE, LF, HB, HC, VA], [("recursion over formulas", "pddl/logic"), ("attaching types, once per binder", UT), ("printing of hierarchies", FO)],
     ["library lines executed by each operation, counted by the interpreter"],
     note="lines executed are counted with sys.monitoring; depth to 24, width to 250, words to 30 000 letters")
prop("C26", "What is constructed is what was given; short forms are the long forms",
     "The accessors of an object built with a constructor return what the constructor was given, in order where there is one, and what was not given is empty; conjunctions and disjunctions hold their operands flattened, each once, in order of first occurrence. The operators, the helpers that split a string into variables or constants, applying a predicate or function to other terms, retyping a variable and the formatting functions give exactly what the explicit construction gives, and malformed constructions (wrong number of terms, one variable with two typings, repeated types, unknown optimisation) are refused.",
     ["inputs", "programs"], "all arguments of all constructors, operators and helpers",
     "The tests construct a few objects of each class.",
     [LB, LE, LF, LPR, LT, LH, AC, CO, HB], [("constructors", "pddl/logic"), ("flattening", LB), ("helpers", LH)], ["accessors of constructed objects"],
     note="random constructions of every class")
prop("C27", "The same in every mode of the interpreter, whatever is imported first",
     "What the library answers does not depend on how the interpreter is run. With -O and -OO, with warnings turned into errors, in development mode, in isolated mode, in another locale and time zone, and with any hash seed, the same texts are accepted with the same content and the same printed form, the same texts, files, combinations and calls are refused with the same class of exception (no check is lost where assert statements and docstrings are), and copies and pickles behave alike. Each module of the library can be imported first, in any order with the others; importing prints nothing, warns of nothing and changes nothing in the process.",
     ["inputs", "configurations"], "all questions (texts, broken texts, files, constructions, refused calls) under all modes of the interpreter and all import orders",
     "The tests run in one mode, import the modules in one order, and pytest itself uses asserts.",
     [HB, DP, PP, LP, CO, VA, LB, LF, LT, LPR, SY, PB, INIT], [("assertions of the library that survive -O", HB), ("imports between modules", "pddl"), ("reading the grammar and files", PB)],
     ["answers of interpreters started in different modes: contents, prints, classes of exceptions; output and state of processes that import"],
     note="six modes of the interpreter and random orders of import")
prop("C28", "Nothing is kept: what the user drops is gone, and no process grows",
     "Apart from the last text given to a parser, the library keeps no reference to what it was given or has made: a document, action or formula that the user no longer holds is freed, and a process that goes on parsing, refusing, building, printing, comparing, hashing, copying, checking, instantiating and unfolding ever new inputs comes to a constant amount of memory (caches, if any, are bounded).",
     ["histories"], "long runs of every operation on inputs with names never seen before",
     "A test ends before a leak can be felt; none looks at the lifetime of objects.",
     [PB, DP, PP, LP, CO, CT, HC, VA, TL], [("state of the transformers, reset for each text", PB), ("cached hashes, kept in their object", HC)],
     ["weak references to dropped documents after a collection", "number of blocks allocated by the interpreter after each run of several hundred operations"],
     note="runs of 1500 operations of each kind; memory measured in blocks of the allocator")


prop("C29", "What an error says is true: place, missing requirement and culprit",
     "The error raised for the form of a text gives the line and column of the first token that cannot stand where it stands (of the last token when the text ends too early), whatever the layout and whatever follows it. An error about a missing requirement names one that the domain neither declares nor implies and cannot do without: adding what is named, as often as asked, ends in acceptance when nothing else is wrong. An error about a name, keyword, type, constant, predicate, variable, step or cycle of types names the one at fault.",
     ["inputs"], "all texts with one fault of form, all domains without some of the requirements they need, all kinds of culprit with any name, at every place",
     "The tests match a few messages of short examples; none looks at positions.",
     [PB, DP, VA, TL, CO, CT, HB], [("errors of the parsers, passed on as they are", PB), ("missing requirements", DP), ("the cycle found in a hierarchy", HB)],
     ["line, column, requirement and message of the errors raised"],
     note="one known fault per text or object, at random places")


def main():
    import ast

    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=True) + "\n")
    checks = []
    for p in P:
        tree = ast.parse(open(os.path.join(V, "checks", p["id"].lower() + ".py")).read())
        tech = next((ast.literal_eval(n.value) for n in tree.body
                     if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "TECH"), TECH.get(p["id"]))
        checks.append({
            "property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.py {p['id']}",
            "technique": tech, "level": "exploration",
            "level_note": p["_note"] + "; runs the real code, says nothing about inputs it did not generate",
        })
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import pddl, lark'", "checks": checks, "not_applicable": []}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    import subprocess
    code = (
        "import json, jsonschema, sys\n"
        "ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))\n"
        f"[jsonschema.validate(json.loads(l), ps) for l in open('{V}/properties.jsonl')]\n"
        f"jsonschema.validate(json.load(open('{V}/MANIFEST.json')), ms); print('valid')\n"
    )
    if os.path.exists("/root/.vp/MANIFEST.schema.json"):
        subprocess.run(["python3-vt", "-c", code], check=True)


if __name__ == "__main__":
    main()
