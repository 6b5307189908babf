"""What each check runs: scenarios (parameter of the harness, bounds, engine budget), quick and thorough."""
class S:
    def __init__(self, name, params, bounds, budget=150, covers=(), preempt=2, sched=False):
        self.name, self.params, self.bounds, self.budget, self.covers, self.preempt, self.sched = name, params if isinstance(params, list) else [params], bounds, budget, list(covers), preempt, sched
COMMON = [
    "the LLVM IR that rustc emits for /repo with its locked dependencies, opt-level 1, fat LTO, one codegen unit, panic=abort, overflow checks on, stands for the shipped binary; counterexamples are reported only if the real binary reproduces them",
    "inside qlc's own sources std::collections::{HashMap,HashSet}, std::thread, std::sync and the crates crossbeam-channel and num_cpus are models (insertion-ordered tables with an iteration order the scenario may choose; cooperative threads); everything else, including std, serde_json, graphql-parser, clap and inflector, is the real code",
    "operating-system calls (open/read/write/stat/readdir/realpath/...) are served by an in-memory file system model; allocation never fails; time and signals are outside",
    "Z3 and the IR interpreter (validated by replaying sample paths and every counterexample natively) are trusted",
    "inputs outside the listed scenario bounds are not covered",
]
SCH = "one schema with interfaces D (3 objects) and E (2), a union, objects A B C, an enum, a custom scalar; fields of all of nullable/non-null/list wrappings"
SL = "any selection set of %s on a symbolic root type A..F; each slot is a field with symbolic name a..d aliased to k, __typename, a composite field with symbolic name p or q%s, an inline fragment on a symbolic type A..F, or a spread of one of three imported fragments (one importing another)%s; " + SCH
SK = "selection structures %s of a fixed list (nested inline fragments around repeated composite fields, up to 4 levels), all leaf names a..d, composite names p q and type names A..F symbolic; " + SCH
def slots(p, k, budget=150):
    n, inner, sp, al = {0: (2, "[1]", 1, 0), 1: (1, "[2,1]", 1, 0), 2: (2, "[2]", 1, 0), 3: (1, "[1,1,1]", 1, 0), 4: (1, "[3]", 1, 0), 5: (3, "[1]", 1, 0), 6: (2, "[1,1]", 1, 0), 7: (1, "[2,2]", 1, 0), 8: (4, "[]", 0, 0), 9: (3, "[2]", 1, 0), 10: (2, "[1]", 0, 1), 11: (2, "[1,1]", 0, 0), 12: (1, "[2,1]", 0, 1), 13: (3, "[1]", 0, 1), 14: (2, "[2]", 0, 0), 15: (1, "[2]", 1, 0), 16: (1, "[1,1]", 1, 1)}[k]
    b = SL % ("%d slots (inner selection sets of %s slots per level)" % (n, inner), " optionally aliased to one shared key" if al else "", "" if sp else " [spreads excluded]")
    return S("selection slots %d%s%s%s" % (n, inner, "" if sp else " without spreads", " with aliases" if al else ""), p * 100 + k, b, budget, ["compiled a document"])
def skel(p, k, budget=150): return S("selection structures %d-%d" % (4 * (k - 17), 4 * (k - 17) + 3), p * 100 + k, SK % ("%d-%d" % (4 * (k - 17), 4 * (k - 17) + 3)), budget, ["compiled a document"])
SHAPES = ["documents are well-formed and their selections valid and mergeable per the GraphQL specification wherever the oracle demands output; the oracle is the specification's CollectFields over the scenario's schema"]
PLAN = {}
def plan(p, level_note, quick, thorough=None, assumes=()): PLAN[p] = dict(quick=quick, thorough=thorough or quick, level_note=level_note, assumes=list(assumes))

LIM = [S("directives", 150, "directives with and without effect on a field, an inline fragment and a spread", covers=["same result"]), S("root_types", 151, "query, mutation and subscription, the root types named as usual or not", covers=["same result"])]
plan("P01", "every response shape of every selection within the slot bounds",
     [slots(1, 0), slots(1, 15), skel(1, 17), skel(1, 18)] + LIM,
     [slots(1, k, 600) for k in (0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 13, 14, 15, 16)] + [skel(1, k, 600) for k in (17, 18, 19)] + LIM, SHAPES)
W = "one selected field of each kind (scalar, object, interface, union, enum, custom scalar), every wrapping of up to %d list levels with each level nullable or not%s"
plan("P02", "every wrapping within the bound, for every field kind, plus every selection within the slot bounds",
     [S("wrappings to 5", 221, W % (5, ""), covers=["compiled a document"]), S("nested wrappings", 222, W % (5, " and every wrapping to 2 levels of the field selected inside it"), covers=["compiled a document"]), slots(2, 15)],
     [S("wrappings to 5", 221, W % (5, ""), covers=["compiled a document"]), S("nested wrappings", 222, W % (5, " and every wrapping to 2 levels of the field selected inside it"), covers=["compiled a document"]), slots(2, 0), slots(2, 1, 900), slots(2, 10, 600), skel(2, 17), skel(2, 18), skel(2, 19, 900)], SHAPES)
L = "a leaf field (selected in the root, an interface, an object list and a union) of every built-in scalar, enum, or custom scalar with a symbolic name of 2-3 letters%s; custom scalars off, on, on with a symbolic one-letter prefix"
plan("P03", "every leaf kind under every scalar configuration, and every selection within the slot bounds under each configuration",
     [S("leaf kinds", 325, L % "", covers=["compiled a document"]), S("wrapped leaf kinds", 326, L % ", list or not, nullable or not", covers=["compiled a document"]), slots(3, 15), skel(3, 18)],
     [S("leaf kinds", 325, L % "", covers=["compiled a document"]), S("wrapped leaf kinds", 326, L % ", list or not, nullable or not", covers=["compiled a document"]), slots(3, 15), slots(3, 0, 300), slots(3, 1, 900), slots(3, 10, 900), skel(3, 17), skel(3, 18), skel(3, 19, 900)], SHAPES)
VV = "a named or anonymous query, mutation or subscription with %s, or a fragment; symbolic operation and variable names"
plan("P04", "every combination of operation kind, name, variable types and wrappings within the bounds; subscriptions are annotated QueryDocumentNode by design (the repository's own fixture says so)",
     [S("up to one variable", 430, VV % "0 or 1 variable of 8 types with up to 1 list level, every scalar configuration", covers=["compiled a document"]), S("two variables", 431, VV % "2 variables of 4 types with up to 1 list level", covers=["compiled a document"]), S("three variables", 432, VV % "3 variables of 3 types", covers=["compiled a document"]), slots(4, 15)],
     [S("up to one variable", 430, VV % "0 or 1 variable of 8 types with up to 1 list level, every scalar configuration", covers=["compiled a document"]), S("two variables", 431, VV % "2 variables of 4 types with up to 1 list level", covers=["compiled a document"]), S("three variables", 432, VV % "3 variables of 3 types", covers=["compiled a document"]), slots(4, 0), slots(4, 1, 600)], SHAPES)
G = "input objects I(2 fields) J(2) K(1) whose field types are chosen freely among %s; 5 operations using different ones of them, %s"
MIXD = "%s documents in nested directories, each one of 8 (enums, inputs, variables, fragments, mutations, with over-narrowing or deprecation warnings, or faulty) or absent"
MIX2 = S("mixed documents", 543, MIXD % "2", covers=["global types", "imports"]); MIX3 = S("three mixed documents", 544, MIXD % "3", covers=["global types", "imports"])
plan("P05", "every reference graph among the inputs and enums within the bounds, and every selection within the slot bounds",
     [S("input graphs, one document", 540, G % ("a scalar, the inputs and an enum (3 edges)", "one document"), covers=["global types", "imports"]), S("input graphs, two documents", 542, G % ("a scalar, the inputs, two enums and a custom scalar (4 edges)", "two documents"), covers=["global types", "imports"]), MIX2, slots(5, 15)],
     [S("input graphs, one document", 540, G % ("a scalar, the inputs and an enum (3 edges)", "one document"), covers=["global types", "imports"]), S("input graphs, two documents", 541, G % ("a scalar, the inputs, two enums and a custom scalar (5 edges)", "two documents"), 900, covers=["global types", "imports"]), MIX3, slots(5, 0), slots(5, 1, 900), slots(5, 10, 600)], SHAPES)
I = "an input field of 9 kinds (built-ins, enum, custom scalar, input, the input itself), every wrapping of up to %d list levels%s"
plan("P06", "every wrapping and kind of an input field within the bound; symbolic enum values and input field names",
     [S("input field wrappings to 3", 645, I % (3, ", every scalar configuration"), covers=["global types"]), S("input field wrappings to 5", 646, I % (5, ", a second field with up to 1"), covers=["global types"]), S("symbolic values", 648, "3 symbolic two-character enum values, two symbolic input field names", covers=["global types"])])
DD = "description of %s on a root field, an object/interface field, an enum or an input field; field deprecated or not"
INV = "fragments and operations with %s; every name (field, type condition, root type) a symbolic letter, so that unknown names, wrong kinds and missing or superfluous selection sets arise; " + SCH
def inv(p, what, covers=("invalid document", "valid document"), budget=150): return S("selections %d" % p if p != 904 else "operations with variables", p, INV % what if p != 904 else "a query, mutation or subscription with 1-2 variables of known types or of a symbolic one-letter type, one alone with up to 2 list levels, and one selected leaf", budget, covers)
TPL = S("whole documents, two definitions", 910, "0-2 definitions of 8 kinds (empty, named, anonymous, bare selection set, fragment, mutation, empty selection set, subscription) with 3 separators after 4 leading texts", 150, ["invalid document", "valid document"])
plan("P09", "every document within the slot and template bounds, valid or not",
     [inv(900, "one slot (1 inner slot), spreads of known and unknown fragments"), inv(902, "one slot, nested two levels"), inv(904, ""), TPL],
     [inv(900, "one slot (1 inner slot), spreads of known and unknown fragments"), inv(901, "two slots (1 inner slot each)", budget=1200), inv(902, "one slot, nested two levels"), inv(903, "one slot with two inner slots", budget=600), inv(904, ""), inv(906, "one slot, nested two levels, spreads everywhere", budget=1200), inv(907, "three flat slots", budget=1200), TPL, S("whole documents, three definitions", 911, "0-3 definitions of the same kinds", 600, ["invalid document", "valid document"])],
     [])
POS = "item of 10 kinds (unknown field, missing/superfluous selection, unknown spread, inline fragment without/with unknown/with wrong type condition, over-narrowing inline fragment and spread, deprecated field)%s; LF, CR and CR LF line breaks, blanks, tabs, commas, comments, multi-byte characters and symbolic white space before and inside it"
plan("P10", "every reportable item at every layout within the bounds; line numbers up to 21",
     [S("one item", 1000, "one " + POS % ", aliased or not, nested or not", 150, ["reported"]), S("variables", 1002, "1-2 variables, each of unknown type, a list of lists, or fine, after 4 kinds of gap", 150, ["reported"]), S("imports", 1003, "an import that cannot be read or is no fragment, in a document or 1-2 imports deep, after 4 kinds of leading lines", 150, ["reported"])],
     [S("one item", 1000, "one " + POS % ", aliased or not, nested or not", 300, ["reported"]), S("variables", 1002, "1-2 variables, each of unknown type, a list of lists, or fine, after 4 kinds of gap", 150, ["reported"]), S("imports", 1003, "an import that cannot be read or is no fragment, in a document or 1-2 imports deep, after 4 kinds of leading lines", 150, ["reported"]), S("two items", 1001, "an " + POS % ", and a second one of 4 kinds", 900, ["reported"])],
     ["columns count characters (Unicode scalar values)", "errors about merging two selections name types, not one item, and carry no position"])
plan("P11", "every combination of documents and every number of messages within the bounds",
     [S("two documents", 1100, "2 documents of 13 kinds (0-2 errors, conflicting selections included, and 0-2 warnings each)", 100, ["errors", "warnings", "clean"]), S("three documents", 1101, "3 documents of 13 kinds, one in a subdirectory", 100, ["errors", "warnings", "clean"]), S("whole runs", 1105, "failures of the schema (missing, malformed), the config file, the root directory and the global types module beside a document of 13 kinds", 100, ["errors", "warnings", "clean"]), S("many messages", 1102, "0-12 errors and 0-12 warnings in one document", 100, ["errors", "warnings", "clean"]), S("symbolic fields", 1103, "3 selected fields of symbolic name a..z, of which some exist, are deprecated or do not exist", 150, ["errors", "warnings", "clean"])])
IMP = "an import from one of 3 directories to one of 6 places (or nowhere), path of %s, %s"
plan("P13", "every import path, prefix, import graph and leading block within the bounds",
     [S("paths", 1300, IMP % ("6 heads and 5 middles", "no prefix or one of 3"), 100, ["resolved", "unreadable import"]), S("symbolic paths", 1303, IMP % ("0-2 symbolic characters '.'..'~', a slash and 5 middles", "no prefix, 2 symbolic characters, or those and a slash"), 100, ["resolved", "unreadable import"]), S("symbolic short paths", 1301, IMP % ("0-1 symbolic characters and 2 middles", "no prefix, a symbolic character, or one and a slash"), 100, ["resolved", "unreadable import"]),
      S("import graphs", 1305, "every import graph (cycles included) over 3 fragment files in 2 directories, any one imported by the document and any one spread", 100, ["in scope", "out of scope"]), S("leading lines", 1307, "3 leading lines of 9 kinds (blank, comment, import of 4 kinds, look-alike, token), with LF or CR LF, after a byte order mark or not", 100, ["in scope"])],
     [S("paths", 1300, IMP % ("6 heads and 5 middles", "no prefix or one of 3"), 100, ["resolved", "unreadable import"]), S("symbolic paths", 1303, IMP % ("0-2 symbolic characters '.'..'~', a slash and 5 middles", "no prefix, 2 symbolic characters, or those and a slash"), 100, ["resolved", "unreadable import"]), S("symbolic short paths", 1301, IMP % ("0-1 symbolic characters and 2 middles", "no prefix, a symbolic character, or one and a slash"), 100, ["resolved", "unreadable import"]),
      S("import graphs", 1305, "every import graph over 3 fragment files", 100, ["in scope", "out of scope"]), S("larger import graphs", 1306, "every import graph over 4 fragment files, the document importing the first", 600, ["in scope", "out of scope"]), S("leading lines", 1308, "4 leading lines of 9 kinds", 300, ["in scope"])],
     ["paths that climb out of the root directory are outside the scenarios"])
plan("P14", "every description text within the bound",
     [S("five characters", 1451, DD % "5 symbolic characters among * + , - . /", covers=["documented"]), S("with line breaks", 1452, DD % "4 characters, each a symbolic one of * + , - . /, a space or a newline", covers=["documented"]), S("seven characters", 1453, DD % "7 symbolic characters among * + , - . /", covers=["documented"])])
TYPN = S("type_names", 2036, "an interface or union of three object types, one called by one of 7 names (`other`, `_`, with underscores, like another type and its field); one or two fragments with nested selections, common fields or not", covers=["compiled a document"])
plan("P20", "every module generated for a selection within the slot bounds",
     [slots(20, 0), slots(20, 15), skel(20, 17), S("response keys", 2033, "two fields with two-level selections, every response key of 1 or 2 symbolic letters a..c, composite and abstract field types", covers=["compiled a document"]), S("underscore_keys", 2052, "a response key with a symbolic middle character a-z or _ beside a nested selection of the other letters", covers=["compiled a document"]), S("names", 2034, "an operation or fragment named by a symbolic letter A..Z beside enums, inputs and object types of one letter", covers=["compiled a document"]), TYPN, S("narrowed field types", 2027, "1 slots (inner selection sets of 2 slots) over a schema whose implementing types narrow the field types of their interface (lists, nullability, types)", 900, covers=["compiled a document"]), S("two variables", 2031, VV % "2 variables of 4 types with up to 1 list level", covers=["compiled a document"])],
     [slots(20, k, 600) for k in (0, 1, 10, 12, 15, 16)] + [skel(20, k, 600) for k in (17, 18, 19)] + [S("response keys", 2033, "two fields with two-level selections, every response key of 1 or 2 symbolic letters a..c, composite and abstract field types", covers=["compiled a document"]), S("underscore_keys", 2052, "a response key with a symbolic middle character a-z or _ beside a nested selection of the other letters", covers=["compiled a document"]), S("names", 2034, "an operation or fragment named by a symbolic letter A..Z beside enums, inputs and object types of one letter", covers=["compiled a document"]), TYPN, S("narrowed field types", 2028, "2 slots (inner selection sets of 2 slots) over a schema whose implementing types narrow the field types of their interface (lists, nullability, types)", 900, covers=["compiled a document"]), S("two variables", 2031, VV % "2 variables of 4 types with up to 1 list level", covers=["compiled a document"]), S("input graphs", 2042, G % ("a scalar, the inputs, two enums and a custom scalar (4 edges)", "two documents"), covers=["global types"])], SHAPES)
plan("P21", "every property generated for a selection within the slot bounds, option on and off",
     [slots(21, 15), slots(21, 0), S("sources of the option", 2135, "the option absent, false or true in the config file, given or not on the command line; documents of 5 kinds, alone or beside another", covers=["compiled a document"]), S("variables", 2131, VV % "2 variables of 4 types with up to 1 list level", covers=["compiled a document"]), S("input graphs", 2140, G % ("a scalar, the inputs and an enum (3 edges)", "one document"), covers=["global types"])],
     [slots(21, k, 900) for k in (15, 0, 1, 10)] + [skel(21, 17), skel(21, 18), S("sources of the option", 2135, "the option absent, false or true in the config file, given or not on the command line; documents of 5 kinds, alone or beside another", covers=["compiled a document"]), S("variables", 2131, VV % "2 variables of 4 types with up to 1 list level", covers=["compiled a document"]), S("input graphs", 2140, G % ("a scalar, the inputs and an enum (3 edges)", "one document"), covers=["global types"])], SHAPES)
WRN = "any selection set of %s on a symbolic root type, symbolic field names of which 4 are deprecated, inline fragments on symbolic types and spreads of three imported fragments, option on and off; " + SCH
def wrn(p, what, budget=150): return S("warnings %d" % p, p, WRN % what, budget, ["compared", "deprecated", "narrowed"])
plan("P17", "every valid selection within the slot bounds, with the option on and off",
     [wrn(1700, "2 slots (1 inner)"), wrn(1702, "1 slot, nested two levels"), wrn(1701, "1 slot (2 inner)")],
     [wrn(1700, "2 slots (1 inner)"), wrn(1702, "1 slot, nested two levels"), wrn(1701, "1 slot (2 inner)"), wrn(1704, "1 slot, 1 inner of 2", 600), wrn(1703, "1 slot, 2 inner of 1", 1200), wrn(1705, "2 slots nested two levels", 2400), wrn(1707, "2 slots with aliases", 1200)],
     ["an over-narrowing fragment is one of the document itself or the spread that brings it; what lies deeper inside an imported fragment is reported where that fragment is compiled"])
plan("P22", "every mixture of documents within the bounds",
     [S("two documents", 2200, "2 documents, each absent or of 13 kinds (4 valid, 9 faulty), and an imported fragment", 100, ["faulty and valid documents"]), S("three documents", 2201, "3 documents, each absent or of 13 kinds", 150, ["faulty and valid documents"]), S("symbolic fault", 2203, "a document whose variable type and a field are symbolic letters (valid or faulty), beside one of 4 valid ones", 100, ["faulty and valid documents"])],
     [S("two documents", 2200, "2 documents, each absent or of 13 kinds (4 valid, 9 faulty), and an imported fragment", 100, ["faulty and valid documents"]), S("three documents", 2201, "3 documents, each absent or of 13 kinds", 150, ["faulty and valid documents"]), S("three documents, other fragment", 2202, "the same with another imported fragment", 150, ["faulty and valid documents"]), S("symbolic faults", 2204, "a document whose variable type and two fields are symbolic letters (valid or faulty), beside one of 4 valid ones", 300, ["faulty and valid documents"])])

RUNS = "; then a second run with %s, fresh or over the results, byte by byte"
D7 = "documents with many globals, colliding keys, imports sharing names, an interface, a union, cyclic inputs, one of them faulty"
SYM7 = "a fragment of 1 slot (inner selection sets of 1 slot, spreads) with symbolic names"

def rep(k, b, budget=150): return S(["repeated run, one document", "repeated run, four documents", "repeated run, all documents", "repeated run, symbolic selection", "repeated run, larger symbolic selection", "repeated run, two deviations"][k], 700 + k, b, budget, ["compared", "ran again"])
plan("P07", "every single deviation from insertion order of one hash table iteration (any of its elements first) and every order deviation of one (quick) or two directory listings, and every symbolic selection within the bounds",
     [rep(0, "one document with five variable and field types" + RUNS % "any iteration of any hash table starting at any element"), rep(1, D7 + RUNS % "any iteration of any hash table starting at any element, or one directory listing deviating"), rep(2, D7 + RUNS % "any hash iteration deviating, or two directory listings"), rep(3, SYM7 + RUNS % "any hash iteration deviating")],
     [rep(0, "one document" + RUNS % "any hash iteration deviating"), rep(1, D7), rep(2, D7), rep(3, SYM7), rep(5, D7 + ", two deviations of hash iteration", 900), rep(4, "2 slots with symbolic names", 2400)])
DOC8 = "%s: documents that use an enum, warn, or fail, in nested directories%s"
def sched(k, docs, n, p, budget=150): return S("%s, %d threads%s" % (docs, n, ""), 800 + k, "every interleaving of %d worker threads with at most %d preemptions at synchronisation operations; %s" % (n, p, docs), budget, ["ended"], p, True)
plan("P08", "every interleaving of 2-4 workers at synchronisation operations within the preemption bounds, for the listed trees",
     [sched(0, "two documents in two directories", 2, 4), sched(1, "a document, a faulty one and an empty directory", 2, 3), sched(2, "documents in nested directories, one with a warning", 2, 3), sched(4, "three documents (one faulty) in three directories and an empty one", 2, 3), sched(5, "nested empty directories", 3, 2), sched(3, "two documents in two directories, three workers", 3, 2), sched(7, "four documents in four directories", 4, 1), sched(20, "two documents whose selected field is symbolic (an enum, a deprecated or an unknown field)", 2, 2)],
     [sched(0, "two documents in two directories", 2, 6, 900), sched(1, "a document, a faulty one and an empty directory", 2, 5, 900), sched(2, "documents in nested directories, one with a warning", 2, 5, 900), sched(4, "three documents (one faulty) in three directories and an empty one", 2, 4, 900), sched(6, "a faulty document and one with a warning", 2, 5, 900), sched(5, "nested empty directories", 3, 4, 900), sched(3, "two documents in two directories, three workers", 3, 3, 900), sched(8, "four documents, three workers", 3, 2, 900), sched(7, "four documents in four directories", 4, 2, 900), sched(20, "two documents whose selected field is symbolic", 2, 3, 900), sched(21, "three documents whose selected field is symbolic", 2, 2, 900), sched(22, "two documents whose selected field is symbolic, three workers", 3, 2, 900)],
     ["threads switch at operations of std::sync, std::thread and crossbeam-channel only, and memory is sequentially consistent"])
C15 = "each of %s from the command line, the config file or both (string values ending in a symbolic letter), root given or not, config file at its default place or elsewhere"
plan("P15", "every %s of options, every source and both placements of the config file" % "pair",
     [S("pairs of options", 1500, C15 % "2 of the 9 options", covers=["configured"]), S("all options", 1502, C15 % "all 9 options", covers=["configured"]), S("config placements", 1503, C15 % "2 of the 9 options, two spellings and three placements of the config file,", covers=["configured"])],
     [S("pairs of options", 1500, C15 % "2 of the 9 options", covers=["configured"]), S("triples of options", 1501, C15 % "3 of the 9 options", 600, covers=["configured"]), S("all options", 1502, C15 % "all 9 options", covers=["configured"]), S("config placements", 1503, C15 % "2 of the 9 options", covers=["configured"])],
     ["a custom-scalar prefix on the command line without custom scalars on the command line is a usage error of the command line itself"])
N18 = "names around `.graphql` (case, suffixes, prefixes, several dots, spaces, non-ASCII)"
KIND = "a file, a directory, a symbolic link to a file, to a document, to a directory"
plan("P18", "every tree and name within the bounds",
     [S("one name", 1804, "one of 14 " + N18 + " at 3 depths as " + KIND + "; 3 roots", covers=["compiled", "nothing to compile"]), S("two names", 1805, "two of 14 " + N18 + " at 2 depths, each a file or a directory; 2 roots", covers=["compiled"]), S("symbolic names", 1802, "names with two symbolic printable characters before or inside the extension", covers=["compiled", "nothing to compile"]), S("module names", 1806, "6 spellings of the global types module, one other name of 4 as " + KIND, covers=["compiled"])],
     [S("two names", 1800, "two of 14 " + N18 + " at 3 depths, each " + KIND, 900, covers=["compiled"]), S("three names", 1801, "one of 14 names in each of 3 directories, each a file or a directory", 900, covers=["compiled"]), S("symbolic names", 1802, "names with two symbolic printable characters before or inside the extension", covers=["compiled", "nothing to compile"]), S("module names", 1803, "6 spellings of the global types module, two other names of 4 as " + KIND, 600, covers=["compiled"])],
     ["configured modules colliding with an input, and outputs whose place is taken by a directory or a link, are outside"])
F19 = "one run without and one with any %s failing operation%s (listing or opening a directory, opening, reading, creating or writing any file; a failing write may be partial), %d documents with imports, old outputs present or not"
def flt(k, n, d, budget=150): return S("%d failure%s, %d documents%s" % (n, "s" if n > 1 else "", d, " and a config file" if k == 1 else ""), 1900 + k, F19 % (n, "s" if n > 1 else "", d), budget, ["fault", "others"])
plan("P19", "every single failure and every pair of failures of file system operations",
     [flt(0, 1, 4), flt(1, 1, 5), flt(2, 2, 4), flt(3, 2, 6)], [flt(0, 1, 4), flt(1, 1, 5), flt(2, 2, 4), flt(3, 2, 6), flt(4, 3, 6, 900)],
     ["a failing operation fails with EIO or EACCES; a read or write fails at its first call or after a part"])
S16 = "; a document, an old output present or not"
def sch(k, name, b, budget=150, covers=("malformed", "well-formed")): return S(name, 1600 + k, b, budget, list(covers))
Q16 = [sch(0, "cut short", "every prefix of a schema with every kind of type" + S16, covers=["malformed"]), sch(1, "symbolic character", "a small schema with any one character replaced by any ASCII character"), sch(2, "parts replaced", "any one node of a schema with every kind of type replaced (null, string, number, empty object or list, list of null, wrapper without inner type, kind), left out or altered" + S16),
    sch(3, "symbolic character in a type", "the definition of an interface, union, enum or input object with any one character replaced by any ASCII character"), sch(4, "inserted character", "the same with any ASCII character inserted anywhere"), sch(5, "symbolic kind of type", "a type of a kind of 4, 5, 6 or 9 symbolic capital letters", covers=["malformed"]), sch(6, "symbolic kind of field type", "a field type of a kind of 4, 5, 6 or 8 symbolic capital letters", covers=["malformed"]), sch(7, "no schema", "the schema missing, misnamed, a directory, a link or a dangling link"), sch(8, "lists of a type", "a type of each of 6 kinds with each of fields, inputFields, enumValues and possibleTypes absent, null or given")]
plan("P16", "every departure of the listed kinds, at any place of the schema; empty lists, repeated keys, sequences for objects and unused parts of a wrong shape are left open", Q16)
DOC12 = "of %d documents (every kind of definition, values, directives, strings, byte order mark, CR LF, non-ASCII characters, faults), "
def rob(k, name, b, budget=150, covers=("succeeded", "failed")): return S(name, 1200 + k, b, budget, list(covers))
R12 = [rob(2, "documents cut short", "every prefix " + DOC12 % 10 + "with any byte after it or not"), rob(5, "import and spread graphs", "3 files, each importing any one of 4 and spreading one or two of any 4 fragments, an operation among them or not"), rob(7, "input graphs", "3 input objects with 2 fields of any of 4 input types (one unknown), a variable of any of them"),
    rob(8, "altered schemas", "any one node of a schema with every kind of type replaced, left out, repeated, reversed or contradicted, under documents that use all of it"), rob(9, "config values", "any of 10 keys with any of 14 values in the config file"), rob(10, "config bytes", "a config file with any byte replaced by or preceded by any byte, or cut short"), rob(11, "command lines", "any two of 26 arguments", covers=["succeeded", "failed", "usage"]), rob(13, "long texts", "runs of 1, 20, 45 or 300 characters of 2, 3 or 4 bytes at every alignment in 12 places: imports, comments, strings, selections, defaults, descriptions, enum values, file names")]
plan("P12", "every input within the bounds; nesting is bounded by the parsers (50 and 128 levels); chains of thousands of files or input objects and files of gigabytes are outside",
     [rob(20, "arbitrary byte", "any byte of 5 documents replaced by any byte"), rob(21, "arbitrary inserted byte", "any byte inserted at any place of 5 documents"), rob(24, "import lines", "5 beginnings of an import line, up to 2 arbitrary bytes, 5 endings")] + R12,
     [rob(0, "arbitrary byte", "any byte " + DOC12 % 10 + "replaced by any byte", 600), rob(1, "arbitrary inserted byte", "any byte inserted at any place of 10 documents", 600), rob(23, "two arbitrary bytes", "any two adjacent bytes of 5 documents replaced by any bytes", 2400), rob(4, "import lines", "5 beginnings of an import line, up to 3 arbitrary bytes, 5 endings", 600), rob(6, "more import graphs", "3 files with up to two imports of any of 4 files and one spread", 300), rob(12, "longer command lines", "any three of 26 arguments", 600, ["succeeded", "failed", "usage"])] + R12)

# the scripts of the npm package: explored by js/run.js, not by the IR interpreter
JSN = "every value of the environment (%s), every order of completions within %d (quick) or %d (thorough) deliveries out of order, at most %d or %d injected failures, at most %d or %d requests"
JSA = ["Node's modules behave as js/models.js says (replays of sample paths on the real Node confirm it where they can)", "what is delivered out of order is bounded", "other modules of Node than fs, fs/promises, stream, http(s), url, os, path, crypto, child_process, util, events, timers and process are outside"]
PLAN["P23"] = dict(js="postinstall", quick=[], thorough=[], level_note=JSN % ("platform, architecture, version, pinned checksums and their absence, status codes, redirects, the digest of what arrives, tar's exit code or signal, cut-off and stalled answers, failing file operations", 2, 4, 1, 3, 2, 3),
    assumes=JSA + ["SHA-256 is an uninterpreted function of the content: equal contents have equal digests, different ones any", "pinned checksums are lower-case hexadecimal without blanks, the version consists of digits and dots, platform and architecture are among those Node has", "redirections other than 302 may be followed or refused"])
PLAN["P24"] = dict(js="download", quick=[], thorough=[], level_note=JSN % ("endpoint, output file, status code, whether a schema is there already, cut-off answers, failing file operations", 2, 4, 1, 3, 2, 3),
    assumes=JSA + ["endpoints begin with http, https, ftp or no protocol at all", "an answer that never ends is waited for"])
