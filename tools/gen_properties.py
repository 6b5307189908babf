#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

DTS=["<document>.graphql.d.ts"]
IR="src/graphql/ir.rs"; TS="src/typescript.rs"; SCH="src/graphql/schema.rs"; FLD="src/graphql/schema/field.rs"; GQL="src/graphql.rs"; CLI="src/cli.rs"; WP="src/worker_pool.rs"; VAR="src/graphql/variable.rs"; JS="src/graphql/schema/json.rs"

p("P01","Generated data type has exactly the response's keys for every runtime type",
"For every valid query, mutation, subscription or fragment, the generated data type, expanded structurally, admits for each possible runtime object type exactly one object shape whose keys are exactly the response keys (alias, else field name) that GraphQL execution returns for that runtime type, recursively through nested selections, inline fragments, imported fragments, interfaces and unions. Selections of the same response key merge; a fragment contributes only to the runtime types its type condition covers; a nested object's shape is the one selected for that runtime type, never another type's.",
["inputs"],"all valid documents and schemas (objects, interfaces, unions, nested and repeated fragments, aliases)",
"The fixtures sample about a dozen documents against one schema; the guarantee is over every combination of abstract types, overlapping fragments and merged sub-selections (and 38 of 41 tests cannot run here).",
[IR,TS],[("per-runtime-type field collection",IR+" ComplexTraversal / collect_fields_from_selection_set"),("merging of common shapes into one type",TS+" type_definitions_from_complex_field_collection")],DTS)
p("P02","Nullability and list nesting of every selected field are exact",
"For every selected field, the generated property type carries exactly the schema's wrapping: one array level per list level, in the same nesting, with `null` allowed at exactly those levels (including each list's elements) that the schema does not mark non-null.",
["inputs"],"all field types: every LIST/NON_NULL nesting over every kind of named type",
"The number of wrapper combinations grows exponentially with depth; the fixtures contain two nested-list types.",
[FLD,TS],[("wrapper state machine",FLD+" ModifierBuilder"),("rendering of wrappers",TS+" prop_type_def")],DTS)
p("P03","Leaf fields get the right TypeScript type under every scalar configuration",
"A selected leaf field is typed string for ID and String, number for Int and Float, boolean for Boolean, the imported enum of the same name for an enum; a custom scalar is `any` by default, its own name with custom scalars enabled, and prefix+name with a prefix configured. `__typename` is typed as a string literal naming exactly the runtime types the enclosing object shape stands for, and is available on objects, interfaces and unions.",
["inputs","configurations"],"all leaf field types and names, and all settings of the custom-scalar options",
"Names and configurations are unbounded; fixtures show three custom-scalar configurations on one schema.",
[TS,"src/typescript/field.rs",FLD],[("scalar mapping",TS+" type_name_from_scalar"),("scalar classification",FLD+" ScalarType::from")],DTS)
p("P04","Operation variables are typed exactly as declared",
"For every operation with variables, the Variables type has exactly one property per declared variable, with the type of its declared GraphQL type (built-in scalar, custom scalar per configuration, enum or input object imported by name), the declared list/null wrapping, and optional exactly when the variable is nullable; operations without variables use `never`. The typed document annotation names the data type and that Variables type, with the node kind (query, mutation, fragment) matching the definition and no Variables for fragments.",
["inputs","configurations"],"all variable lists with supported types (no list of lists) on all operation kinds",
"Fixtures cover three documents with variables; type, wrapper, order and name combinations are unbounded.",
[VAR,TS],[("variable lowering",VAR+" unwrap_var_def / try_build_variable_ir"),("Variables rendering",TS+" compile_variables_type_definition")],DTS)
p("P05","Global types file declares exactly the transitively used enums and inputs",
"After a successful run, the global types module declares exactly once every enum and input object that any compiled document uses as a field or variable type, plus every enum and input object reachable from those through input fields (recursive and mutually recursive inputs included), and nothing else; it is not written when nothing is used. Every generated document imports exactly the enums and inputs it mentions, from the configured module name.",
["inputs","histories"],"all sets of documents and all (possibly cyclic) graphs of input objects and enums",
"Reachability over arbitrary, possibly cyclic, type graphs and unions over many files cannot be settled by three fixtures, none of which has a nested or recursive input.",
[TS,GQL,WP],[("closure over input fields",TS+" add_sub_input_objects"),("aggregation across workers",WP+" WorkAggregateResult")],["<root>/<global types module>.ts"]+DTS)
p("P06","Input object and enum declarations mirror the schema",
"Each input object declared in the global types module has exactly the schema's input fields, each with the TypeScript type of its named type, exactly its list nesting and nullability, and optional exactly when nullable. Each declared enum has exactly the schema's values, each member's value equal to its name.",
["inputs","configurations"],"all input objects and enums, every LIST/NON_NULL nesting",
"Two fixtures with flat fields; nesting and name combinations are unbounded.",
[TS,FLD],[("input object rendering",TS+" input_def_from_type"),("enum rendering",TS+" enum_def_from_type")],["<root>/<global types module>.ts"])
p("P07","Output is a function of inputs: no dependence on hash seed or listing order",
"Two runs over the same schema, documents and configuration write byte-identical files and end with the same exit status, whatever the iteration order of hash tables and whatever order the filesystem lists directory entries in. Running again over a tree that already contains generated files changes nothing.",
["inputs","histories"],"all inputs; all hash-table iteration orders; all directory listing orders",
"A test observes one random order per process and cannot enumerate them.",
[IR,TS,GQL],[("sorting before rendering",IR+" TryFrom<UniqueFields> and "+TS+" sort_unstable*")],["every written file"])
p("P08","Every document is compiled exactly once and the run ends, on every schedule",
"For every directory tree, every number of worker threads and every interleaving of the workers, the run terminates, and when it does every .graphql file under the root has been compiled exactly once and every message and global type it produced is accounted for.",
["schedules","configurations","histories"],"all interleavings of the worker threads, all thread counts, all directory trees",
"The quit protocol has race windows of a few instructions that ordinary runs never hit; tests use two threads and whatever schedule happens.",
[WP],[("work queue and termination detection",WP+" Worker::pop_work / Worker::run"),("aggregation",WP+" WorkAggregateResult::extend_from")],["set of written files","termination","stdout"],
[("pending work / quit counters","who may still produce work",WP)])
p("P09","Invalid documents are rejected with an error and leave no output",
"A document that selects an unknown field, omits a selection set on an object-like field, puts one on a leaf, spreads an unknown fragment, uses an inline fragment without type condition, declares a variable of unknown type, of an output type or of list-of-list type, is a bare selection set, or holds other than one definition makes the run print an error for it and exit with status 1. Nothing is written for that document.",
["inputs"],"all documents with at least one such fault at any depth outside imported fragments",
"One fixture per message kind at one place; faults can sit anywhere in the selection tree.",
[IR,VAR,GQL],[("validation during lowering",IR+" insert_field / collect_fields_from_selection_set"),("definition count",GQL+" parse_graphql_file")],["stdout","exit status","absence of <document>.graphql.d.ts"])
p("P10","Errors point at the offending source location",
"Every error or warning about a field, fragment spread, inline fragment or variable in a document prints that document's path with the 1-based line and column of the offending item (for an import: the path of the file that has the import line, and its opening quote), quotes exactly that source line, and puts the caret under that column (columns count characters). Errors about two selections that cannot be merged name types and carry no position.",
["inputs"],"all positions (line, column, line-number widths, line endings, tabs) of every reportable item",
"Fixtures check a handful of single-digit lines at fixed columns.",
[CLI,IR,VAR],[("location rendering",CLI+" LocationInformation / SourceInformation")],["stdout"])
p("P11","Exit status and summary reflect exactly what was reported",
"The process exits 1 if at least one error was reported and 0 otherwise; warnings alone never fail the run. The closing summary states exactly the number of errors, and exactly the number of warnings, that were printed, with correct plurals.",
["inputs","histories"],"all multisets of messages from any number of documents",
"Tests check exit status on single-message runs and never the counts.",
[CLI,WP],[("summary and exit",CLI+" print_exit_info")],["stdout","exit status"])
p("P12","No input makes the compiler crash or hang",
"For every content of documents, import lines, import graphs (cyclic ones included), fragment spreads (cyclic ones included), schemas and configurations, the run ends by itself with exit status 0, 1 or (for bad command-line usage) 2: it never panics, overflows the stack or loops.",
["inputs","configurations"],"all file contents, import graphs, fragment graphs and type graphs",
"Crashes hide in rare shapes (unterminated import line, import cycle, recursive input object) that no fixture has.",
[GQL,IR,TS,CLI],[("import scanning",GQL+" get_file_path_of_fragment / add_imported_fragments"),("input closure",TS+" add_sub_input_objects")],["exit status"])
p("P13","Imports resolve as documented and bring exactly the imported fragments in scope",
"An `#import \"path\"` line in the leading comment block resolves to the root directory plus the rest of the path when it starts with the configured prefix, to the importing file's directory when it starts with a dot, and to the root directory otherwise; imports are followed transitively relative to the file they are in. Spreading a fragment defined by a transitively imported file works, spreading one that is not imported is an error, and an import that cannot be read, or that is not a fragment, is an error.",
["inputs","configurations"],"all import paths, prefixes, file placements and import graphs",
"Fixtures cover one path of each form; names, prefixes, depth and sharing are unbounded.",
[GQL],[("path resolution",GQL+" get_file_path_of_fragment"),("transitive import",GQL+" add_imported_fragments")],["files read","stdout"]+DTS)
p("P14","Schema documentation is carried as comments and can never alter types",
"Every documented property or enum gets its documentation text in a doc comment right before it, deprecated fields (and only those) get an @deprecated tag, and whatever the documentation text, the comment ends only where the generator closes it, so the declarations are the same as without documentation.",
["inputs"],"all documentation texts, with or without deprecation",
"Breaking texts are rare character sequences; fixtures have four benign one-line descriptions.",
[TS,FLD],[("comment rendering",TS+" compile_documentation"),("doc normalisation",FLD+" TryFrom<json::Field>")],DTS+["<root>/<global types module>.ts"])
p("P15","Command line overrides config file overrides defaults, for every option",
"For every option, a value given on the command line takes effect over the config file's, the config file's over the default, and boolean options are on if either turns them on (a custom-scalar prefix on the command line without custom scalars on the command line is a usage error); a relative schema path in the config file is resolved against the config file's directory. The schema defaults to <root>/schema.json and the custom-scalar prefix only has effect with custom scalars enabled.",
["configurations"],"all combinations of presence and value of each option on the command line and in the config file",
"The product of options, sources and values is large; tests try a few single settings.",
[CLI],[("merge of sources",CLI+" RuntimeConfig::from_cli"),("config parsing",CLI+" ConfigFileMatches")],["generated files","stdout"])
p("P16","A malformed schema is reported and nothing is generated",
"If the introspection JSON is unreadable, not JSON, of the wrong shape, has a type of unknown kind, a wrapper without inner type, an object-like type without its fields, an enum without its values or an abstract type without its implementations, the run prints a schema error, exits 1 and writes no file; a well-formed schema is never rejected.",
["inputs"],"all single departures from a well-formed introspection result, at any type",
"Two tests cover a truncated and an empty-shaped JSON; each malformation can sit at any position.",
[SCH,FLD,JS],[("schema construction",SCH+" TryFrom<json::Type>, "+FLD+" TryFrom<json::FieldType>")],["stdout","exit status","absence of writes"])
p("P17","Warnings are raised exactly when due and never change the result",
"With deprecation warnings enabled, exactly one warning is printed per selection of a deprecated field written in the document itself, and none when disabled; an over-narrowing warning is printed exactly for each fragment (inline fragment, or spread of an imported fragment) written in the document that no possible runtime type at its place can match, and for none that some type can match. Warnings change neither generated files nor the exit status.",
["inputs","configurations"],"all documents, with and without deprecated fields and impossible fragments, local or imported",
"Whether a warning is due depends on the whole nesting of type conditions; two fixtures show one instance each.",
[IR],[("warning points",IR+" clone_for_type_spread / insert_field / ForeignFragmentJumpState")],["stdout","exit status"]+DTS)
p("P18","Only .graphql files are compiled and only their outputs are written",
"The run compiles exactly the regular files with extension `graphql` in the root directory and all its subdirectories; for each it writes at most `<name>.graphql.d.ts` beside it, plus at most one global types module at its configured place. No other file is created, changed or removed, and no input file is ever overwritten. (Symbolic links are not followed by the walk; a configured module name that collides with an input is outside.)",
["inputs","configurations"],"all directory trees, file names and module names",
"File names and trees are unbounded; tests check that expected files are present, never that nothing else changed.",
[WP,GQL],[("walk",WP+" Work::run_dir_entry"),("output paths",GQL+" compile_file / compile_global_types_file")],["all filesystem writes"])
p("P19","Every I/O failure is reported, and stays confined to the file it hit",
"If listing a directory, reading a document or an import, or writing an output fails, the run prints an error naming the path and exits 1, while every other document is compiled as if the failure had not occurred. A partial failure never makes the run report success.",
["fault_sequences"],"all subsets of failing directory listings, reads and writes",
"Tests inject no fault except a missing import.",
[WP,GQL,CLI],[("error conversion",GQL+" compile_file"),("directory errors",WP+" Work::run")],["stdout","exit status","written files"])
p("P20","Generated modules are closed: every referenced type is declared once",
"In every generated file, each type name used in a property, union, Variables type or document annotation is declared exactly once in that file or imported exactly once, or is a custom scalar name passed through by configuration; no declaration has two properties of the same name.",
["inputs"],"all valid documents and schemas",
"Depends on all generated names across nested and merged types; fixtures sample a dozen documents.",
[TS,IR],[("naming by path",TS+" type_definitions_from_complex_ir"),("field keys",IR+" UniqueFields")],DTS)
p("P21","Properties are readonly by default, and never when disabled",
"Every property of every generated data type is marked readonly unless readonly types are disabled on the command line or in the config file, in which case none is; Variables, input object and enum members are never affected by the option.",
["inputs","configurations"],"all documents and both settings from either source",
"Holds per property over every rendering path; one fixture checks the disabled setting.",
[TS,CLI],[("readonly marker",TS+" type_definitions_from_complex_ir")],DTS)
p("P22","A faulty document never affects the output of the others",
"For every set of documents, the files generated for the valid ones are exactly those a run without the faulty ones would generate, and types used only by faulty documents are not added to the global types module.",
["inputs","histories"],"all mixtures of valid and faulty documents",
"Needs pairs of runs over arbitrary mixtures; every test has a single document of one kind.",
[GQL,WP],[("per-file result",WP+" Work::run")],["all written files"])
p("P23","The npm installer never unpacks a binary whose checksum does not match",
"The npm post-install script downloads the release tarball of the package's own version for the platform, and extracts it only after its SHA-256 equals the checksum pinned for that platform in package.json; on a mismatch, missing checksum, unsupported platform, or failed, cut-off or stalled download it removes the download and fails. It ends with status 0 exactly when downloading, checking, unpacking and making the binary executable all worked, and then the tarball is removed.",
["fault_sequences","schedules","inputs"],"all downloaded contents, status codes, platforms, pinned checksums, failures and orders of completion",
"pkg/npm has no tests at all, and the decision depends on the order in which asynchronous operations end and fail.",
["pkg/npm/lib/postinstall.js"],[("checksum before untar","pkg/npm/lib/postinstall.js main()"),("download, redirects, failures","pkg/npm/lib/postinstall.js download()")],["spawned processes","exit status","files left"])
p("P24","qlc-download-schema stores the whole answer or fails",
"qlc-download-schema posts an introspection query as JSON to the endpoint, over the endpoint's own protocol. It ends with status 0 only if the answer had status 200 and the output file (the second argument, else schema.json) holds exactly the whole body; a missing endpoint, another status, an unreachable endpoint, an answer that is cut off and a file that cannot be written end with a non-zero status, and once a request has been made the output file is removed again or left as it was, never holding part of an answer.",
["fault_sequences","schedules","inputs"],"all endpoints, output files, status codes, cut-off answers and failing file operations, in every order of completion",
"pkg/npm has no tests at all; what remains on the disk depends on where the transfer fails.",
["pkg/npm/lib/download.js"],[("answer to file","pkg/npm/lib/download.js download()")],["output file","exit status","request"])
import os
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
