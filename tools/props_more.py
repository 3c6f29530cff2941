# exec'd by props.py: further properties
prop("C08", "Generated enums are exactly the schema's enums",
     "Every enum the configuration asks for, and no other, is generated with exactly the schema's values in schema order. Each value is a string member found by its wire value and by its name (escaped only where python reserves the name), parses from and serializes to the wire value in responses, variables, nested inputs and lists, and every other value is refused.",
     ["programs", "inputs", "configurations"], "all enum definitions (any legal names and values), all uses of enums, pruning options, stylers, SDL and introspection schemas",
     "Tests use a few enums with ordinary upper case values.",
     [T + "plugins/enums.py", T + "referencer.py", T + "registry.py"],
     [("members are escaped where python reserves names", "turms/plugins/enums.py generate_enums"), ("unreferenced enums are pruned", "turms/referencer.py")],
     ["generated enum classes; models using them"], "runtime monitor: every value of every generated enum is driven through models and compared with the wire",
     "Exploration: thousands of enum values and uses per run; enums named with two leading underscores are introspection-only; " + G)

prop("C10", "Naming styles change python names only",
     "For every stack of stylers and styler options, the generated client sends the same documents, accepts and refuses the same responses and variables, and serializes them to the same wire form as the unstyled client; the python names of classes, fields and parameters are the ones the stylers document.",
     ["programs", "inputs", "configurations"], "all styler stacks and options, all schemas and documents, all responses, variables and calls",
     "Tests check a few names per styler; that renaming never leaks to the wire needs all names at all positions.",
     [T + "stylers/capitalize.py", T + "stylers/snake_case.py", T + "stylers/appender.py", T + "stylers/default.py", T + "registry.py"],
     [("names are styled in one place", "turms/registry.py generate_node_name/style_*"), ("aliases keep the wire name", "turms/recurse.py, turms/plugins/inputs.py")],
     ["styled against unstyled client: documents, validation outcomes, dumps, calls"],
     "runtime monitor: differential oracle between a styled and an unstyled client of the same world",
     "Exploration: hundreds of styled worlds per run, every operation driven with responses, damaged responses, variables and calls; " + G)

prop("C12", "Frozen models are immutable and hashable exactly as configured",
     "With freezing enabled, every model of a selected kind (input, fragment, object, query, mutation, subscription) and type refuses assignment, holds tuples instead of lists unless told otherwise, and hashes consistently with equality; models not selected stay ordinary. Freezing never changes what is accepted or serialized.",
     ["programs", "inputs", "configurations"], "all freeze options, all models of all worlds, all parsed responses and built inputs",
     "The only test freezes one query and checks that it compiles.",
     [T + "utils.py", T + "recurse.py", T + "plugins/inputs.py", T + "plugins/fragments.py", T + "plugins/operations.py"],
     [("frozen config per kind and type", "turms/utils.py generate_config_dict"), ("lists become tuples", "turms/recurse.py recurse_annotation; turms/plugins/inputs.py generate_input_annotation")],
     ["assignment, hash and containers of parsed objects"], "runtime monitor: every object of parsed responses and inputs is attacked by assignments, hashed and compared",
     "Exploration: tens of thousands of assignments per run; at abstract positions kinds are judged when object and fragment agree; " + G)

prop("C29", "Model options reach exactly the configured kinds and types",
     "Model options (extra keys, mutation, population by name, attribute sources, enum values, assignment validation) and per-type additional configuration take effect on every generated model of the selected kinds and types and on no other, and never change how conforming data is parsed and serialized.",
     ["programs", "inputs", "configurations"], "all option values, kinds, included and excluded types, all generated models",
     "No test generates with options and probes their effect.",
     [T + "utils.py", T + "recurse.py", T + "plugins/inputs.py", T + "plugins/fragments.py", T + "plugins/operations.py", T + "config.py"],
     [("options become model configuration", "turms/utils.py generate_config_dict")],
     ["model configuration and validation behaviour of generated models"], "runtime monitor: behavioural probes for each option on every object of parsed responses and inputs",
     "Exploration: over a hundred thousand probes per run; enum values are judged by behaviour only where they must stay members; " + G)

prop("C17", "Every form of a configuration means the same, mistakes are refused",
     "A configuration generates the same code whether written as YAML, JSON or TOML, alone or among several projects, under any discoverable name, or partly in TURMS_ environment variables; file values win over the environment and no other variable matters. Unknown options, wrong types, half given pairs, bad imports and broken or ambiguous files are refused before any code is produced.",
     ["configurations"], "all configurations, formats, file names, environments and single mistakes",
     "Tests load a few YAML files in a clean environment.",
     [T + "config.py", T + "run.py", T + "stylers/base.py", T + "plugins/base.py", T + "cli/main.py"],
     [("files are parsed by suffix", "turms/run.py load_projects_from_configpath"), ("unknown keys are forbidden", "turms/config.py GeneratorConfig"), ("discovery of a single file", "turms/run.py scan_folder_for_single_config")],
     ["generated code per configuration form; refusals"], "runtime monitor: differential oracle over forms of one configuration, fault injection into configurations",
     "Exploration: over a thousand forms and mistakes per run; " + G)

prop("C18", "Projects are generated in isolation and failures surface",
     "In a configuration of several projects each is generated as if alone: failing projects neither stop nor alter the others, exactly the selected ones run, outputs contain exactly the code, a failing project leaves its earlier output untouched, and failures are reported and reflected in the exit code unless the project tolerates errors. Nothing outside the configured outputs is written.",
     ["configurations", "fault_sequences", "crash_points"], "all mixtures of working and failing projects, failure kinds and stages, flags, entry points and earlier outputs",
     "Tests run one working project through the command line.",
     [T + "run.py", T + "cli/main.py", T + "config.py"],
     [("loop over projects", "turms/run.py gen; turms/cli/main.py generate"), ("outputs are written last", "turms/run.py write_code_to_file/write_project")],
     ["working directory before and after; exit code; output"], "runtime monitor: snapshots of the working directory around runs with injected failures",
     "Exploration: hundreds of runs with up to five projects; the process is not killed midway; " + G)

prop("C16", "Object models mirror the schema's object types and interfaces",
     "With the objects plugin every object type and interface of the schema has a model with exactly its fields under their wire names. Conforming values of any shape are accepted, read back and dumped unchanged, values breaking nullability, list structure, leaf kind or type membership are refused, and a model inherits the bases of exactly the interfaces its type implements.",
     ["programs", "inputs", "configurations"], "all schemas in any definition order, all conforming values and single faults, stylers, freezing and base options",
     "Tests check that the module compiles for three schemas.",
     [T + "plugins/objects.py", T + "registry.py", T + "utils.py"],
     [("types become models, interfaces bases and unions", "turms/plugins/objects.py generate_types"), ("field annotations", "turms/plugins/objects.py generate_object_field_annotation")],
     ["object models: construction, attributes, dumps, inheritance"], "runtime monitor: values built bottom up through the models, single faults injected at every field",
     "Exploration: thousands of objects and refusals per run; at abstract positions values are given as instances as the models carry no typename; " + G)

prop("C19", "Documents are refused exactly when a rule in force is violated",
     "Documents violating a GraphQL validation rule are refused naming every violation, before any code is produced, wherever the definitions are stored, unless exactly the violated rules are omitted by the configuration; valid documents are accepted and generate the same code under every omission.",
     ["programs", "configurations"], "all defects of documents over any files, all sets of omitted rules",
     "Tests cover two invalid documents and no omission.",
     [T + "utils.py", T + "config.py", T + "rules.py"],
     [("documents are joined and validated", "turms/utils.py parse_documents"), ("rules in force", "turms/config.py get_document_rules"), ("rule names", "turms/rules.py specified_rules_map")],
     ["outcome and message of generations"], "runtime monitor with defect injection: graphql-core judges defective documents independently, rule by rule",
     "Exploration: hundreds of defects per run covering each of the 26 rules; " + G)

prop("C20", "Code depends on the schema, not on where it is read from",
     "The same schema read from a file, files behind a glob, URLs answering SDL, GraphQL endpoints, introspection files, or lists and mappings of those with headers generates the same code; headers are sent as configured. Sources that are missing, unreachable, answer with an error or no schema, or are forbidden by the configuration are refused.",
     ["configurations", "fault_sequences"], "all schemas, splits, source forms, headers and server failures",
     "Tests read schemas from single local files.",
     [T + "run.py", T + "helpers.py", T + "config.py"],
     [("sources are tried as SDL, then introspected", "turms/run.py build_schema_from_schema_type"), ("loading over http and from globs", "turms/helpers.py")],
     ["code per source; requests recorded by a local server"], "runtime monitor: differential oracle over sources, a local server records and breaks the transport",
     "Exploration: hundreds of sources per run; schemas without applied directives or deprecated inputs for introspection, which does not transport those; " + G)

prop("C24", "Code depends on what is said, not on how it is laid out",
     "The order of definitions in schema and documents, their distribution over files and folders, type extensions, white space, commas, comments, line ends and byte order marks do not change what the generated code defines: the same classes, functions and documents with the same contents, in an order that loads.",
     ["programs", "schedules"], "all orders, splits, extensions and spellings of schemas and documents",
     "Tests use one fixed layout per schema and document.",
     [T + "utils.py", T + "run.py", T + "helpers.py", T + "plugins/fragments.py", T + "plugins/objects.py", T + "plugins/inputs.py", T + "registry.py"],
     [("fragments are sorted by their dependencies", "turms/plugins/fragments.py"), ("forward references are resolved at the end", "turms/registry.py"), ("files are joined in order", "turms/helpers.py load_dsl_from_glob; turms/utils.py parse_documents")],
     ["what generated modules define"], "runtime monitor: differential oracle between layouts of one project",
     "Exploration: hundreds of layouts per run, modulo definition order, base order and comments shown as documentation; " + G)

prop("C21", "Exactly what the documents need is generated",
     "With pruning, models are generated for exactly the inputs and enums reachable from the variables and selections of the documents, and everything referenced is defined. Types and fields the documents do not use change nothing, operations are independent of each other, and without pruning everything in the schema is generated with unchanged meaning.",
     ["programs", "configurations"], "all schemas, documents, unrelated additions and removed operations",
     "Tests check that modules compile; that nothing is missing or superfluous needs an independent notion of what is reachable.",
     [T + "referencer.py", T + "plugins/inputs.py", T + "plugins/enums.py", T + "plugins/fragments.py"],
     [("references are collected from documents", "turms/referencer.py create_reference_registry_from_documents"), ("plugins skip unreferenced types", "turms/plugins/inputs.py, turms/plugins/enums.py")],
     ["names and contents of generated definitions"], "runtime monitor: reachability computed with graphql-core's type information, differential oracle under growth and reduction",
     "Exploration: hundreds of projects per run; " + G)

prop("C22", "Traits and bases reach every model of their types and no other",
     "Configured additional bases of a type are inherited by every model standing for that type at any depth, through fragments and unions and interfaces, in the order configured and before the bases of its kind; bases of a kind are inherited by every model of the kind. No other model inherits them. Their methods and validators work, and parsing and serialization stay as without them.",
     ["programs", "inputs", "configurations"], "all assignments of bases to types and kinds, all models, all parsed responses and built inputs",
     "Tests attach a trait to one type and look at one field.",
     [T + "recurse.py", T + "utils.py", T + "plugins/fragments.py", T + "plugins/operations.py", T + "plugins/inputs.py", T + "plugins/objects.py"],
     [("additional bases per type", "turms/utils.py get_additional_bases_for_type"), ("base order", "turms/utils.py merge_bases_sequences; turms/registry.py sort_fragment_bases")],
     ["inheritance, methods and validators of every object of parsed responses and built inputs"],
     "runtime monitor: every parsed object is examined for the traits of its type, trait validators log their runs",
     "Exploration: thousands of objects per run; two interfaces share a trait only if it is their only one (no consistent order exists otherwise); " + G)

prop("C13", "Regenerating through the merge processor keeps hand-written code",
     "With the merge processor, every regeneration keeps all code edited by hand (bodies, helpers, members, imports, bases, comments) exactly once and in order, brings in everything a fresh generation defines (signatures, fields, enum members, bases, imports), defines nothing twice, yields a module which loads, and changes nothing when run again.",
     ["histories", "programs", "configurations"], "all histories of schema changes and hand edits between regenerations",
     "Tests merge a few fixed pairs of modules; what must be kept and brought in depends on the whole history.",
     [T + "processors/merge.py", T + "run.py"],
     [("definitions are merged by name", "turms/processors/merge.py"), ("the existing output is read by the processor", "turms/processors/merge.py MergeProcessor.run")],
     ["the output file after every generation"], "runtime monitor over histories: conservation of hand-written statements and arrival of generated ones is judged after every regeneration",
     "Exploration: hundreds of regenerations per run; comments directly above functions which are merged are taken from the generated code (the existing tests demand it), definitions removed from the schema stay; " + G)

prop("C23", "Defaults, deprecations and descriptions reach the generated code",
     "Every default value, deprecation and description of the schema reaches the generated inputs, arguments and models where configured: each default marker reads back as the schema's default, each deprecation carries its reason, each description its exact text, nothing is documented which the schema does not say, and selecting deprecated fields is warned about.",
     ["programs", "inputs", "configurations"], "all defaults, descriptions and deprecations with any text and nesting, all documentation options",
     "Tests look at one or two documented fields with plain text.",
     [T + "recurse.py", T + "utils.py", T + "plugins/inputs.py", T + "plugins/operations.py", T + "plugins/objects.py", T + "plugins/funcs.py"],
     [("markers of fields", "turms/recurse.py; turms/utils.py"), ("docstrings and comments", "turms/plugins/inputs.py; turms/plugins/funcs.py")],
     ["metadata of generated fields, docstrings, comments and warnings"], "runtime monitor: metadata of every generated field is compared with the schema",
     "Exploration: over ten thousand fields per run; members of unions carry no class documentation; " + G)

prop("C14", "Processors change how code is written, not what it does",
     "Black, isort, ruff, disclaimers and external commands, in any chain and locale, leave the module the same program: only formatting, import order and imports never used may change. Commands get exactly the code and their output is the result. Failing processors and commands fail the generation with their message.",
     ["configurations", "programs", "fault_sequences"], "all modules, chains, options, locales and ways processors fail",
     "Tests run one processor on a short module; equality of programs must hold for all code and text.",
     [T + "processors/black.py", T + "processors/isort.py", T + "processors/ruff.py", T + "processors/command.py", T + "processors/disclaimer.py", T + "run.py"],
     [("processors run in the configured order", "turms/run.py generate_code"), ("commands are piped", "turms/processors/command.py"), ("ruff formats and fixes", "turms/processors/ruff.py")],
     ["code before and after each chain, bytes received by commands, failures"], "runtime monitor: programs are compared before and after, recording commands and faults injected into them",
     "Exploration: over a hundred chains per run; user directives such as isort:skip_file are excluded; " + G)

prop("C15", "The strawberry module serves the API of the schema",
     "The strawberry schema built from the generated module describes the API of the source schema: types, fields, arguments, defaults, enum values, interfaces, unions, inputs, descriptions, deprecations and directives under their names. With resolvers filled in, operations answer as the source schema says and resolvers get the arguments sent.",
     ["programs", "inputs", "configurations"], "all schemas, options, stylers, operations and resolver values",
     "Tests check that modules for a few schemas can be built.",
     [T + "plugins/strawberry.py", T + "registry.py"],
     [("types, inputs, enums and directives are generated", "turms/plugins/strawberry.py"), ("names are kept", "turms/plugins/strawberry.py")],
     ["schema served by strawberry, responses and resolver calls"], "runtime monitor: the served schema is compared with the source, operations run against both",
     "Exploration: hundreds of schemas and operations per run; class, argument and enum value descriptions are only documented (not served), ID is served as configured; " + G)

prop("C25", "Input factories build exactly the input their arguments describe",
     "Every generated input has one factory whose signature follows the schema: required fields are required, nullable and defaulted ones may be omitted. Called with valid values it returns the input serializing to exactly the given values, omitted and unset fields staying absent and nulls being kept. Missing, unknown and invalid arguments are refused.",
     ["programs", "inputs", "configurations"], "all input types, all subsets of given fields, plain and nested values, coercible types, stylers and options",
     "Tests look at the source text of one factory.",
     [T + "plugins/input_funcs.py", T + "plugins/inputs.py", T + "plugins/funcs.py", T + "registry.py"],
     [("factories follow the input's fields", "turms/plugins/input_funcs.py"), ("unset arguments are left out", "turms/plugins/input_funcs.py")],
     ["signatures, results and refusals of generated factories"], "runtime monitor: every factory is called with random valid and damaged arguments, results are compared with the wire",
     "Exploration: thousands of calls per run; factories of unions of inputs and inputs named like their own fields excluded; " + G)

prop("C26", "Watching keeps the generated code in step with the documents",
     "While the watch command runs, every change of a configured document (written, replaced, added or removed, in bursts, wherever it lies) leads to the output a fresh generation would give. Broken documents leave the output as it is and do not end the watch; unrelated files and the output itself trigger nothing.",
     ["histories", "schedules", "configurations", "fault_sequences"], "all histories of edits, document layouts, projects and faults",
     "No test watches; convergence must hold after every edit of any history.",
     [T + "cli/watch.py", T + "cli/main.py", T + "run.py"],
     [("changes are filtered by the configured documents", "turms/cli/watch.py"), ("every change generates", "turms/cli/watch.py")],
     ["output file after every edit, life of the process"], "runtime monitor: real watch processes under random edit histories, convergence to a fresh generation is judged after each",
     "Exploration: over a hundred edits per run; folders are created before the watch starts; polling where the sandbox sends no notifications; " + G)

prop("C27", "Scaffolded configurations work and downloaded schemas are faithful",
     "For every template, file format and set of installed tools, init writes a configuration which loads, holds what the template says and generates out of the box, never replacing a file without consent. Downloaded schemas rebuild to exactly the schema of their source and generate the same code; failures are reported and leave earlier files alone.",
     ["configurations", "inputs", "fault_sequences"], "all templates, file names, tools, answers; all schemas, kinds of sources, headers and failures",
     "Tests run init once per template and download one schema.",
     [T + "cli/main.py", T + "run.py", T + "helpers.py"],
     [("starter configurations", "turms/cli/main.py init"), ("schemas are printed into files", "turms/cli/main.py download; turms/run.py write_schema_to_file")],
     ["written files, exit codes, messages"], "runtime monitor: written configurations are loaded and run, downloaded schemas are rebuilt and compared with their source",
     "Exploration: hundreds of runs; applied directives are not part of downloaded files (known finding); " + G)

prop("C28", "Code for pydantic v1 and older pythons means the same",
     "Code generated for pydantic v1 loads there, parses every valid response without loss, refuses damaged responses and variables, transmits variables (one-of and union inputs included) exactly as given and honours freezing, options and population by name. Polyfilled code uses only syntax and typing names its python version has and differs in nothing but where these names are imported from.",
     ["programs", "inputs", "configurations", "fault_sequences"], "all schemas, documents, options and stylers; all responses, variables, single faults and python versions",
     "Tests generate a few v1 modules and run them against pydantic v2.",
     [T + "recurse.py", T + "utils.py", T + "plugins/inputs.py", T + "plugins/operations.py", T + "parsers/polyfill.py", T + "registry.py"],
     [("configuration classes instead of dictionaries", "turms/utils.py generate_config_class_pydantic"), ("typing names are moved", "turms/parsers/polyfill.py")],
     ["generated models running on pydantic.v1; imports and syntax of polyfilled modules"], "runtime monitor: round trips and injected faults on pydantic.v1, audit of polyfilled modules",
     "Exploration: thousands of responses, variables and faults per run; kinds v1 converts are no faults; old pythons are not installed, so polyfilled code is judged by syntax and names; " + G)
