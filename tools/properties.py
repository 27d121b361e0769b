"""Writes /verif/properties.jsonl (one place to edit the list; run by hand, not by the checks)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Models saved as JSON AST survive restarts, crashes and disk faults unchanged",
  "A model written with the JSON writer and read back, by the same or another process, is the same model: same metadata, shapes, members, targets, traits, values and service/resource properties; and any other legal spelling of a JSON AST document loads as the model it describes. A save that is acknowledged is complete on disk; a save hit by an I/O error reports it; a save cut short by a crash loads later as the old model, the new model, or an error, never as some third model.",
  ["inputs", "crash_points", "fault_sequences", "histories"],
  "every model within the JSON value domain, every crash or I/O fault point of the save, every save/restart/load history, every legal spelling of a document",
  "tests write a few fixed models to memory and never reload them in another process, under faults or after a crash",
  ["atelier-json/src/reader.rs", "atelier-json/src/writer.rs", "atelier-core/src/io/mod.rs"],
  [("JSON AST writer", "atelier-json/src/writer.rs ModelWriter::write"), ("JSON AST reader", "atelier-json/src/reader.rs ModelReader::read, parse_model"), ("file helpers", "atelier-core/src/io/mod.rs write_model_to_file, read_model_from_file")],
  ["bytes of the saved file", "model loaded after restart"])

p("P02", "Models saved as Smithy IDL survive restarts, crashes and disk faults unchanged",
  "A model whose definitions are in one namespace, written with the Smithy IDL writer and read back by the same or another process, is the same model: same metadata, shapes, members, member traits, targets in any namespace, applied traits, values and service/resource properties; and any legal layout of an IDL document (comments, white space, optional commas, quoting, absolute or relative names, apply and repeated statements) loads as the model it describes. A save cut short by a crash or I/O error never loads later as a model with shapes, members or traits that neither the old nor the new model has.",
  ["inputs", "crash_points", "fault_sequences", "histories"],
  "every single-namespace model, every legal layout of a document, every save/restart/load history with I/O faults and crashes",
  "tests compare a handful of fixed documents; the space of models, layouts and histories is unbounded",
  ["atelier-smithy/src/writer.rs", "atelier-smithy/src/parser/smithy.rs", "atelier-smithy/src/reader.rs", "atelier-core/src/builder/mod.rs"],
  [("IDL writer", "atelier-smithy/src/writer.rs ModelWriter::write"), ("IDL parser", "atelier-smithy/src/parser/smithy.rs parse_model"), ("name resolution", "atelier-core/src/builder/mod.rs TryFrom<&mut ModelBuilder> for Model")],
  ["bytes of the saved file", "model loaded after restart"])

p("P03", "What a reader returns depends only on the bytes, not on how they arrive",
  "For both representations, the result of reading (the model, or the fact that it is refused) is a function of the bytes of the document alone. How the bytes are split over read calls, interrupted calls, the process's hash keys, and whether they come from a string, a stream or a file make no difference.",
  ["schedules", "inputs", "fault_sequences"],
  "every document (valid or not), every chunking and interruption schedule, every hash seed",
  "tests hand each reader one whole in-memory buffer under whatever hash keys the process got",
  ["atelier-json/src/reader.rs", "atelier-smithy/src/reader.rs", "atelier-core/src/io/mod.rs"],
  [("JSON read", "atelier-json/src/reader.rs ModelReader::read"), ("Smithy read", "atelier-smithy/src/reader.rs ModelReader::read")],
  ["model returned by ModelReader::read"])

p("P04", "A failed, truncated or undecodable input is an error, never a smaller model",
  "If the stream or file a model is read from fails at any point, or a JSON document ends before its closing brace, or the bytes of an IDL document are not UTF-8, the read returns an error. It never panics and never returns a model made from the part that did arrive.",
  ["fault_sequences", "inputs", "crash_points"],
  "every document, every failure point and error kind, every truncation point",
  "no test makes a read fail or truncates an input",
  ["atelier-json/src/reader.rs", "atelier-smithy/src/reader.rs", "atelier-core/src/io/mod.rs", "atelier-core/src/error.rs"],
  [("error propagation", "ModelReader::read implementations"), ("file open", "atelier-core/src/io/mod.rs read_model_from_file")],
  ["Result returned by the reader"])

p("P05", "No document makes a reader panic, hang or overflow",
  "For any sequence of bytes offered as a JSON AST or Smithy IDL document, whether corrupted in storage, cut, spliced or hand-written, reading terminates and returns either a model or an error. A model that is returned can be traversed, and written out again in every output format, without panicking.",
  ["inputs", "fault_sequences"],
  "every byte string: documents with flipped, lost, duplicated, swapped or inserted bytes, tokens and lines",
  "tests feed well-formed documents and a few chosen bad ones",
  ["atelier-json/src/reader.rs", "atelier-smithy/src/parser/smithy.rs", "atelier-core/src/builder/mod.rs", "atelier-core/src/model/shapes/aggregate.rs"],
  [("JSON parser", "atelier-json/src/reader.rs parse_*"), ("IDL parser", "atelier-smithy/src/parser/smithy.rs parse_*")],
  ["panic or timeout of a read"])

p("P06", "Every writer delivers its whole output however the sink takes it",
  "Each model writer (JSON compact and pretty, Smithy IDL, line-oriented, debug, documentation, GraphML, PlantUML, RDF) hands the same bytes to a sink that accepts writes in arbitrary pieces and interrupts calls as to one that takes everything at once. A successful return means every byte was accepted by the sink.",
  ["schedules", "inputs"],
  "every model, every writer, every short-write and interruption schedule",
  "tests write into an in-memory buffer that always accepts everything",
  ["atelier-json/src/writer.rs", "atelier-smithy/src/writer.rs", "atelier-core/src/io/lines.rs", "atelier-core/src/io/debug.rs", "atelier-describe/src/document/writer.rs", "atelier-describe/src/graphml/writer.rs", "atelier-describe/src/plant_uml/writer.rs", "atelier-rdf/src/writer.rs"],
  [("ModelWriter implementations", "write")],
  ["bytes accepted by the sink"])

p("P07", "A writer whose sink fails says so",
  "If the sink refuses a write (an error, a full disk, or accepting zero bytes) at any point, the writer returns an error rather than success, does not panic, and what the sink accepted is a prefix of the output it would have produced. The helpers that write to a file or string report such failures too.",
  ["fault_sequences", "inputs"],
  "every model, every writer, every failure point and error kind",
  "no test writes to a sink that fails",
  ["atelier-json/src/writer.rs", "atelier-smithy/src/writer.rs", "atelier-core/src/io/mod.rs", "atelier-core/src/io/lines.rs", "atelier-describe/src", "atelier-rdf/src/writer.rs"],
  [("ModelWriter implementations", "write"), ("write_model_to_file", "atelier-core/src/io/mod.rs")],
  ["Result returned by the writer", "bytes accepted by the sink"])

p("P08", "Assembling a model does not depend on order, layout or directory listing",
  "The model assembled from a set of files is the same whatever order the paths were added in, whatever order the file system lists directories in, however the definitions are split over files, directories and representations, and whatever the process's hash keys; the shapes are exactly the union of those in the files whose extension is registered, by whatever type it was registered with; file types are found by the extensions and MIME types they were registered with, and an assembler lists the paths it was given. When the files conflict, every order reports an error.",
  ["schedules", "configurations", "inputs"],
  "every split of a model over files, every push order, directory order, nesting, search path and hash seed",
  "tests assemble fixed directories in the one order the machine happens to list them",
  ["atelier-assembler/src/lib.rs", "atelier-core/src/model/mod.rs"],
  [("path expansion", "atelier-assembler/src/lib.rs expand_file_paths"), ("merging", "atelier-core/src/model/mod.rs Model::merge")],
  ["Model::try_from(assembler)"])

p("P09", "Assembly is complete or it fails, whatever the file system does",
  "If a path, directory or file named by (or found under) the assembler's paths cannot be listed, opened, or read to the end, assembling returns an error. It never panics and never returns a model that lacks the definitions of a file that has a registered extension and lies under those paths.",
  ["fault_sequences", "crash_points", "configurations"],
  "every fault kind (permission, I/O error, vanished file) at every file-system call of an assembly",
  "no test makes a directory listing, open or read fail",
  ["atelier-assembler/src/lib.rs"],
  [("expand_path", "atelier-assembler/src/lib.rs"), ("read_model", "atelier-assembler/src/lib.rs")],
  ["Result of Model::try_from(assembler)"])

p("P10", "Merging follows the Smithy merge rules in every history",
  "After any history of adding, merging, editing in place and removing shapes, members, traits and metadata, a model holds exactly what the documented Smithy merge rules give: equal metadata kept once, arrays concatenated in order, unresolved placeholders replaced by definitions, traits of both definitions (shape and member) united, and lookups and queries agreeing with the contents. A genuine conflict of version, metadata value, shape type, members, properties or trait values is reported as an error, never resolved silently and never by a panic.",
  ["histories", "inputs"],
  "every sequence of add, merge and remove operations over every combination of shapes, traits and metadata",
  "tests merge a few hand-picked pairs",
  ["atelier-core/src/model/mod.rs", "atelier-core/src/model/shapes/mod.rs"],
  [("add_shape, add_metadata, merge", "atelier-core/src/model/mod.rs"), ("equal_without_traits, apply_with_value", "atelier-core/src/model/shapes/mod.rs")],
  ["contents of the model after each operation", "Result of each operation"])

p("P11", "The command line succeeds only if its whole output is durable and right",
  "`convert` and `document` exit with status 0 only if the complete output, equivalent to what the library writers give for the model assembled from the inputs, has been written to the named file or to standard output; on any input, output or argument failure they exit with a non-zero status and a diagnostic. They create the output file when it does not exist, replace it entirely when it does, and touch no other file.",
  ["fault_sequences", "crash_points", "configurations", "inputs"],
  "every command, format, output target, prior state of the output file, and every I/O fault point",
  "no test runs the executable",
  ["cargo-atelier/src/actions.rs", "cargo-atelier/src/bin/main.rs", "cargo-atelier/src/command_line.rs"],
  [("write_model, document_a_file", "cargo-atelier/src/actions.rs"), ("exit status", "cargo-atelier/src/bin/main.rs")],
  ["exit status", "files on disk", "standard output"])

p("P12", "Lint and validate runs report the same issues in every execution",
  "The set of issues that the `lint` and `validate` commands print for a set of input files (level, message, reporter and location) is the one the library reports for the assembled model, and is the same in every execution whatever the order of the inputs, the directory order and the process's hash keys. If the inputs cannot be read or assembled, or the report cannot be written, the command does not exit with status 0.",
  ["schedules", "fault_sequences", "inputs"],
  "every input model, split, input order, hash seed and I/O fault point",
  "no test runs the executable, and hash-order effects show only in some executions",
  ["cargo-atelier/src/report.rs", "cargo-atelier/src/actions.rs", "cargo-atelier/src/bin/main.rs", "atelier-lib/src/actions.rs"],
  [("report", "cargo-atelier/src/report.rs report_action_issues"), ("standard actions", "atelier-lib/src/actions.rs")],
  ["standard output", "exit status"])

p("P13", "The line-oriented form is canonical",
  "Two models have the same line-oriented form exactly when they are the same model: the form is sorted and identical in every process, for every order of construction and for a model that was saved and reloaded, and any difference in metadata, shapes, members, targets, traits, values or properties shows in it.",
  ["histories", "schedules", "inputs"],
  "every pair of models, every construction history and hash seed",
  "tests compare a few fixed models with fixed text",
  ["atelier-core/src/io/lines.rs"],
  [("make_line_oriented_form, LineOrientedWriter", "atelier-core/src/io/lines.rs")],
  ["lines produced"])

p("P14", "Walking a model visits everything exactly once and stops at the first error",
  "Walking a model calls the visitor exactly once for each metadata entry, shape and member (for service shapes, each present property value), with the right identity, target and traits, and calls for a shape's members directly follow the call for the shape. If any call returns an error, the walk returns that error and makes no further call.",
  ["fault_sequences", "inputs", "schedules"],
  "every model, every hash order, every point at which a visitor call fails",
  "tests count calls on one fixed model and never fail a call",
  ["atelier-core/src/model/visitor.rs"],
  [("walk_model", "atelier-core/src/model/visitor.rs")],
  ["calls received by the visitor"])

p("P15", "Action pipelines run in order, lose no issue and fail fast only when asked",
  "Running a list of linters or validators calls each in the given order on the given model, returns all issues they report, in order, each exactly once, and leaves none behind in the actions. With fail-fast set the run ends after the first action that reports an error-level issue and returns the issues so far; without it every action runs; an action that itself fails makes the run return that error.",
  ["fault_sequences", "histories", "inputs"],
  "every list of actions, every pattern of issues and failures, repeated runs over several models",
  "tests run one real validator on one model",
  ["atelier-core/src/action/lint/mod.rs", "atelier-core/src/action/validate/mod.rs"],
  [("run_linter_actions", "atelier-core/src/action/lint/mod.rs"), ("run_validation_actions", "atelier-core/src/action/validate/mod.rs")],
  ["issues returned", "actions called"])

p("P16", "Lint and validation verdicts are a function of the model alone",
  "The multiset of issues that the standard linters and validators report for a model (level, reporter, message and location) is exactly the one their documented rules give: each wrongly typed, dangling or unresolved reference, each name against the naming conventions, each unwelcome term. It does not depend on hash keys, construction order, representation, or on models checked before by the same or another instance.",
  ["histories", "schedules", "inputs"],
  "every model, hash seed, construction order and sequence of earlier checks",
  "tests check a few fixed models; hash-order effects show only in some executions",
  ["atelier-core/src/action/lint/mod.rs", "atelier-core/src/action/lint/terms.rs", "atelier-core/src/action/validate/mod.rs", "atelier-lib/src/actions.rs"],
  [("NamingConventions, UnwelcomeTerms", "atelier-core/src/action/lint/mod.rs"), ("CorrectTypeReferences, NoUnresolvedReferences", "atelier-core/src/action/validate/mod.rs")],
  ["issues reported"])

p("P17", "Concurrent use from several threads gives the results of separate use",
  "Threads that read, build, merge, write, lint, validate and query different models at the same time each get exactly the results they get when running alone, under every interleaving. Nothing that one thread does, including failing in the middle, changes or blocks another.",
  ["schedules", "fault_sequences"],
  "every interleaving of several threads at their I/O and step boundaries, with faults in some of them",
  "tests are single-threaded per model and their interleavings are not controlled",
  ["atelier-core/src/prelude.rs", "atelier-core/src/model/identity.rs", "atelier-smithy/src/parser/mod.rs", "atelier-core/src/action/lint/terms.rs"],
  [("process-wide statics", "lazy_static tables in prelude, identity, lint terms, parser")],
  ["results of each thread"])

p("P18", "Readers, writers, actions and assemblers carry nothing over between uses",
  "An instance of a reader, writer, linter, validator or assembler gives, on each use, the result a fresh instance gives, whatever it was used for before and whether or not those earlier uses failed part-way through.",
  ["histories", "fault_sequences"],
  "every sequence of uses of one instance over different models and documents, with faults in earlier uses",
  "tests construct a fresh instance for every use",
  ["atelier-json/src/reader.rs", "atelier-json/src/writer.rs", "atelier-smithy/src/writer.rs", "atelier-describe/src/plant_uml/writer.rs", "atelier-rdf/src/writer.rs", "atelier-assembler/src/lib.rs"],
  [("ModelReader/ModelWriter instances", "read, write"), ("ModelAssembler", "TryFrom<&mut ModelAssembler>")],
  ["result of each use"])

p("P19", "Shape identity is case-insensitive and never depends on hash keys",
  "Identifiers, namespaces and shape IDs that differ only in letter case are the same identity for equality, hashing and ordering alike, so lookups, membership, merging and conflict detection treat them as one shape in every process; spelling is preserved when they are printed or parsed again. Adding or merging definitions whose IDs differ only in case is handled as one ID, under every hash seed and order.",
  ["schedules", "histories", "inputs"],
  "every pair of identifiers, every hash seed and order of insertion",
  "with hashing and equality out of step the outcome differs between executions; a test sees one",
  ["atelier-core/src/model/identity.rs"],
  [("PartialEq, Hash, Ord of Identifier, NamespaceID, ShapeID", "atelier-core/src/model/identity.rs")],
  ["lookups and merges in the model"])

p("P20", "Generated documentation covers the whole model in every execution",
  "The documentation written for a model has, for every namespace, one section for each shape defined in it, with its kind, documentation text, applied traits (each value in them with its whole path) and one entry per member, operation, resource, error or rename with its name and target, and all metadata, and mentions nothing the model lacks; links to shapes of the document lead to their section. The set of sections and entries is the same in every process, whatever the hash keys and construction order, and on a failing sink the writer reports an error.",
  ["schedules", "inputs", "fault_sequences"],
  "every model, hash seed and construction order, every sink failure point",
  "tests render a fixed model and look at the result by eye",
  ["atelier-describe/src/document/writer.rs"],
  [("describe_model, DocumentationWriter", "atelier-describe/src/document/writer.rs")],
  ["document produced"])

p("P21", "Generated diagrams contain every shape and relationship once",
  "The GraphML output is well-formed XML with exactly one node per shape the model defines, carrying its type (and a service's version), and exactly one uniquely numbered edge per trait applied to a shape and per member, operation, resource or error it refers to, with the right source, target and label. The PlantUML output has, in the package of its namespace, one balanced block per simple shape, structure, union, resource and service with its stereotype, traits and fields, and the relationships between them. Both hold in every process and for models with dangling references, and a failing sink is reported.",
  ["schedules", "inputs", "fault_sequences"],
  "every model, including dangling references and many shapes, every hash seed and every sink failure point",
  "tests render a fixed model and compare nothing or one text",
  ["atelier-describe/src/graphml/writer.rs", "atelier-describe/src/plant_uml/writer.rs"],
  [("GraphMLWriter", "atelier-describe/src/graphml/writer.rs"), ("PlantUmlWriter", "atelier-describe/src/plant_uml/writer.rs")],
  ["text produced"])

p("P22", "The RDF graph states every fact of the model and nothing else",
  "The RDF graph produced for a model has, by the documented mapping, a subject for each shape the model defines with its type, each member with its name and target, each applied trait with its value, each service, operation and resource property, and each metadata entry, and no other statement; models that state different things give different graphs. The same model gives an isomorphic graph in every process, whatever the hash keys and construction order. Every shape identifier has one URN, which is read back as that identifier, and no other URN is.",
  ["schedules", "inputs", "fault_sequences"],
  "every model, hash seed and construction order, every sink failure point",
  "tests render two fixed models",
  ["atelier-rdf/src/writer.rs", "atelier-rdf/src/urn.rs", "atelier-rdf/src/vocabulary.rs"],
  [("RdfWriter, model_to_rdf", "atelier-rdf/src/writer.rs")],
  ["graph produced"])

p("P23", "Models put together with the builder are the ones described, in every order",
  "A model put together with ModelBuilder holds exactly the shapes, members, targets, traits, values, metadata and properties it was given, relative names resolved as Smithy prescribes (a use, the model's own namespace, the prelude, else its own namespace, unresolved), in whatever order definitions, uses, metadata and applied traits are given, under any hash keys, and however often the builder is converted; the convenience methods and the functions for prelude traits give what they name. A description that contradicts itself, given to the builder or in an IDL document (two definitions, two members of one name, two values of one trait or metadata key, an ambiguous name, a definition by the name of a use, a reference to a member), is refused, never resolved silently and never by a panic.",
  ["inputs", "schedules", "histories"],
  "every description, every order of its steps, every hash seed and every point at which the builder is converted",
  "tests build a few fixed models in one order, none of them contradictory",
  ["atelier-core/src/builder/mod.rs", "atelier-core/src/builder/shapes.rs", "atelier-core/src/builder/traits.rs", "atelier-core/src/builder/values.rs", "atelier-smithy/src/parser/smithy.rs"],
  [("ModelBuilder", "atelier-core/src/builder/mod.rs")],
  ["model built"])

p("P24", "Selector texts and selectors say the same",
  "parse_selector reads every selector of the Smithy 1.0 grammar, in any layout of white space, as exactly the expressions, keys, values, comparators and case suffixes it spells, and writes nothing to standard output; every other text (and a number that fits neither an i64 nor a finite f64) is an error, never a panic, an overflow of the stack or a different selector, whatever was parsed before. A selector put together with the model API or the builders is equal to the one parsed from its text, and printed it reads back as itself.",
  ["inputs", "histories"],
  "every selector, every layout of its text and every text that is no selector",
  "tests parse a few dozen fixed texts and mostly only look whether parsing succeeds",
  ["atelier-smithy/src/parser/selector.rs", "atelier-smithy/src/selector.pest", "atelier-core/src/model/selector/mod.rs", "atelier-core/src/builder/selector.rs"],
  [("parse_selector", "atelier-smithy/src/parser/selector.rs")],
  ["selector parsed"])

p("P25", "A document that breaks the format or contradicts itself is refused",
  "A JSON or IDL document that breaks the grammar or the schema of its format, or that contradicts itself, is an error of the reader, and never a model that lacks or alters part of what the text says: values of the wrong type, missing, malformed or member identifiers, names that are given twice with different meanings, unsupported versions, unbalanced or stray syntax and statements out of their order. This holds wherever in the document the breach is, whatever surrounds it, in whatever layout it is written and in whatever pieces it is delivered, and the same document without the breach is read as the model it states.",
  ["inputs", "fault_sequences"],
  "every document, every place and kind of breach, every layout and every delivery of the bytes",
  "tests read a dozen well-formed files and almost no malformed one",
  ["atelier-json/src/reader.rs", "atelier-smithy/src/parser/smithy.rs", "atelier-smithy/src/smithy.pest", "atelier-core/src/model/identity.rs"],
  [("JsonReader", "atelier-json/src/reader.rs"), ("SmithyReader, parse_model", "atelier-smithy/src/parser/smithy.rs")],
  ["model read or error"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
