W_CASES = "the existing tests run a fixed set of hand-written examples (the W3C suites are absent submodules here)"

prop("C01", "ShEx verdicts agree with the ShEx semantics",
 "For every schema, RDF graph and node, validating the node against a shape reports conformant exactly when the ShEx semantics say so: triple expressions with cardinalities, grouping and choice, CLOSED and EXTRA, inverse arcs, AND/OR/NOT, shape references and recursion. Validation always returns one verdict per requested association and never aborts.",
 ["inputs"], "all schemas without negated recursion, all graphs, all node/shape pairs",
 "Verdict depends on combinations of operators, cardinalities and neighbourhoods; "+W_CASES+".",
 ["shex_validation/src/engine.rs", "shex_validation/src/validator.rs", "shex_ast/src/ir/ast2ir.rs", "rbe/src/rbe.rs", "rbe/src/rbe_table.rs"],
 [("typing engine with hypotheses and memoised verdicts", "shex_validation/src/engine.rs"), ("regular bag expression matcher", "rbe/src/rbe_table.rs"), ("AST to IR compilation", "shex_ast/src/ir/ast2ir.rs")],
 ["result shape map returned after validation"],
 technique="runtime monitor: reference ShEx evaluator compared online against verdicts on generated schemas and graphs",
 note="Random and stress workloads over small vocabularies; oracle is an independent evaluator written from the ShEx spec; nothing is claimed beyond executions observed.")

prop("C02", "ShEx node constraints accept exactly the nodes the spec accepts",
 "A node satisfies a ShEx node constraint (node kind, datatype with lexical validity, string, length, pattern and numeric facets, value sets with literals, languages, stems and exclusions) exactly when the ShEx specification says so, whatever the node and constraint.",
 ["inputs"], "all node constraints and all RDF terms",
 "The space of term by facet combinations is large and "+W_CASES+".",
 ["shex_ast/src/ir/ast2ir.rs", "shex_ast/src/ast/xs_facet.rs", "shex_ast/src/ir/value_set_value.rs", "rudof_rdf/src/rdf_core/term/literal"],
 [("constraint compilation and checking", "shex_ast/src/ir/ast2ir.rs"), ("value set matching", "shex_ast/src/ir/value_set_value.rs")],
 ["result shape map"],
 technique="runtime monitor: reference node-constraint oracle on generated terms and facets",
 note="Generated boundary-biased terms; oracle implements the spec's node-constraint section independently.")

prop("C03", "Shapes that extend others follow the semantics of EXTENDS",
 "A node conforms to a shape that extends others exactly when its arcs can be divided between the shape's own expression and those of all the shapes above it (each taken once, one alternative chosen where a parent is a disjunction), every part satisfying its expression, with CLOSED and EXTRA of the extending shape respected and the other conjuncts of the extended declarations holding on the arcs that fall to them. A node that conforms to a shape conforms to what that shape extends, and to an abstract shape only by way of a shape that extends it.",
 ["inputs"], "all schemas with EXTENDS hierarchies (chains, several parents, diamonds, alternatives, conjuncts, abstract shapes) and all graphs and nodes",
 "The division of arcs among shapes is a search whose pruning, counting and expansion depend on the combination of hierarchy, cardinalities and values; the tests have a few hierarchies with one or two nodes each.",
 ["shex_validation/src/engine.rs", "shex_validation/src/class_partitions.rs", "shex_ast/src/ir/schema_ir.rs", "shex_ast/src/ir/extend_alternative.rs", "docs/src/internals/feasibility-model.md"],
 [("search for divisions", "shex_validation/src/class_partitions.rs"), ("extended shapes, conjuncts, descendants", "shex_validation/src/engine.rs"), ("alternatives and inheritance", "shex_ast/src/ir/schema_ir.rs")],
 ["verdicts of all node/shape pairs"],
 technique="runtime monitor: verdicts of the real engine on generated hierarchies compared online with a reference evaluator that tries all divisions of the arcs",
 note="Undecided: EXTRA together with shape references or on extended shapes, arcs that only a conjunct mentions, negated conjuncts whose result depends on the division.")

prop("C04", "ShEx verdicts do not depend on order, history or other pairs",
 "The verdict for a node and shape is the same whatever the order of triples, schema declarations and shape-map associations, whatever other associations are validated in the same request, however many times validation is repeated and whatever the session validated before. The order of the operands of AND, OR, groups and choices does not matter either.",
 ["inputs", "histories"], "all permutations and histories of validation requests",
 "Hypothesis tracking and caches make verdicts order sensitive when wrong; tests validate one order once.",
 ["shex_validation/src/engine.rs", "shex_validation/src/validator.rs", "shex_ast/src/shapemap"],
 [("hypothesis tracking before memoisation", "shex_validation/src/engine.rs"), ("result shape map merging", "shex_ast/src/shapemap/result_shapemap.rs")],
 ["result shape map"],
 technique="runtime monitor: metamorphic comparison of verdict maps across permuted and repeated runs",
 note="Permutations, subsets, repetitions of recursive schemas; hash-order randomisation exercised by repetition.")

prop("C05", "ShEx schemas survive serialisation in every supported form",
 "Writing a loaded ShEx schema as ShExC, as ShExJ or as a precompiled cache and loading it again yields a schema that gives the same verdicts for every node and shape, and writing it again gives an equivalent text. A truncated cache or one with a damaged header is refused with an error, and no corruption of a cache makes loading abort.",
 ["inputs"], "all schemas; all single corruptions tried of a cache",
 W_CASES.capitalize()+"; printers and parsers are only tested on a few schemas.",
 ["shex_ast/src/compact", "shex_ast/src/ast", "shex_ast/src/ir/cache.rs"],
 [("ShExC printer", "shex_ast/src/compact/shex_compact_printer.rs"), ("ShExJ serde", "shex_ast/src/ast"), ("cache header and codec", "shex_ast/src/ir/cache.rs")],
 ["serialised schema", "verdicts after reload"],
 technique="runtime monitor: round-trip and differential verdict checks over generated schemas",
 note="Random schemas; corruption by truncation and byte flips.")

prop("C06", "SHACL reports exactly the violations the SHACL Core semantics require",
 "For every shapes graph and data graph, validation produces exactly the results (focus node, path, value, component, source shape, severity) required by SHACL Core for targets, paths and constraint components, and the report conforms exactly when there are no results.",
 ["inputs"], "all non-recursive SHACL Core shapes graphs and data graphs",
 W_CASES.capitalize()+"; component interactions, caching and targets are combinatorial.",
 ["shacl/src/validator", "shacl/src/ir", "shacl/src/rdf"],
 [("native engine", "shacl/src/validator/engine/native.rs"), ("component validators", "shacl/src/validator/constraints/core"), ("per-focus result cache", "shacl/src/validator/cache")],
 ["validation report"],
 technique="runtime monitor: reference SHACL Core evaluator compared against reports on generated shapes and data",
 note="Independent evaluator written from the SHACL recommendation; random small graphs.")

prop("C07", "SHACL native and SPARQL modes give the same report",
 "Validating the same data against the same shapes in native mode and in SPARQL mode yields the same set of validation results.",
 ["inputs", "configurations"], "all SHACL Core shapes and data graphs",
 "Tests compare modes on isolated examples only.",
 ["shacl/src/validator/engine", "shacl/src/validator/constraints"],
 [("dual implementation of each component", "shacl/src/validator/constraints/core")],
 ["validation report"],
 technique="runtime monitor: differential execution of both engines on generated inputs",
 note="Differential, no spec oracle needed.")

prop("C10", "RDF data survives loading, merging and serialisation",
 "Loading RDF then serialising and reloading it in any supported format yields an isomorphic graph, merging loads gives the union of the triples, replacing discards the old triples, and a syntactically invalid document is reported as an error in strict mode.",
 ["inputs", "histories"], "all graphs, formats and load sequences",
 "Tests load a few documents in one format.",
 ["rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs", "rudof_lib/src/api/data", "sparql_service/src/srdf_data/rdf_data.rs"],
 [("merge_from_reader and serialize", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs")],
 ["serialised data", "triple count"],
 technique="runtime monitor: shadow graph model checked for isomorphism after every load/serialise operation",
 note="Own N-Triples model; isomorphism decided independently.")

prop("C12", "SPARQL queries always see the current data",
 "A SELECT, ASK or CONSTRUCT query run in a session returns the answers of exactly the data loaded at that moment, after any sequence of loads, merges, replacements, resets and earlier queries.",
 ["histories"], "all operation sequences in a session",
 "Tests run one query after one load.",
 ["rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs", "sparql_service/src/srdf_data/rdf_data.rs", "rudof_lib/src/api/query"],
 [("lazily built query store", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs")],
 ["query results"],
 technique="runtime monitor: history of session operations checked against a shadow graph model",
 note="Histories of up to a dozen operations; model evaluates basic graph patterns independently.")

prop("C13", "What a session answers depends on what it holds, not on its history",
 "Whatever sequence of loads, refused loads, merges, replacements, resets, validations, queries, inspections, conversions and comparisons a session has been through, an operation on it gives the outcome of a fresh session given only the inputs still in force: the data loaded since the last replacement or reset, and the last accepted schema, shape map, shapes, query and types. Refused schemas, shape maps, shapes and queries leave the previous ones in force, operations on other inputs (conversion, comparison, checking) leave the session as it was, resets clear exactly what they are documented to clear, and the results of a validation stay until the next one.",
 ["histories"], "all sequences of operations of a session",
 "Tests run one operation after the loads it needs, in a new session.",
 ["rudof_lib/src/api", "rudof_lib/src/rudof.rs", "sparql_service/src/srdf_data/rdf_data.rs", "rudof_rdf/src/rdf_impl/oxigraph"],
 [("state replaced only on success", "rudof_lib/src/api/shex/implementations/load_shex_schema.rs"), ("resets", "rudof_lib/src/api/core/implementations/reset_all.rs"), ("SPARQL store kept in step with the graph", "sparql_service/src/srdf_data/rdf_data.rs")],
 ["verdicts", "reports", "query answers", "data", "node information", "refusals"],
 technique="runtime monitor: differential replay of operation histories against fresh sessions",
 note="Histories of 6 to 26 operations over RDF and property graphs, ShEx, SHACL, SPARQL and PGSchema; nothing is claimed about data after a refused load of data.")

prop("C14", "Prefix maps resolve and qualify consistently",
 "Qualifying an IRI with a prefix map and resolving the result gives back the IRI, adding a prefix overrides its previous value, and session prefixes added, removed, renamed or copied are visible to everything loaded later.",
 ["inputs", "histories"], "all IRIs, prefix maps and prefix operation sequences",
 "Tests use a handful of prefixes.",
 ["prefixmap/src/prefix_map.rs", "rudof_lib/src/api/prefixes", "rudof_iri/src"],
 [("longest prefix match", "prefixmap/src/prefix_map.rs")],
 ["qualified names", "resolved IRIs"],
 technique="runtime monitor: shadow map model over operation histories",
 note="Random maps with nested namespaces.")

prop("C23", "Regular bag expressions are matched exactly",
 "A bag of symbols matches a regular bag expression exactly when the bag belongs to its language, by every matching method offered, whatever the nesting of cardinalities, groups and choices.",
 ["inputs"], "all regular bag expressions and bags",
 "Tests sample a few expressions.",
 ["rbe/src/rbe.rs", "rbe/src/rbe_table.rs", "rbe/src/deriv.rs"],
 [("derivatives and interval algorithm", "rbe/src/rbe.rs")],
 ["match result"],
 technique="runtime monitor: brute-force membership oracle on generated expressions and bags",
 note="Bags up to 6 symbols over 3 letters; oracle enumerates the language.")

prop("C08", "SHACL shapes survive loading and serialisation in every supported form",
 "Shapes loaded from any RDF format, or taken from the data graph, then written in any supported RDF format and loaded again are the same shapes: the written graph says the same as the original about targets, paths, constraints, severities, messages and nested shapes, and validation gives the same report before and after.",
 ["inputs", "configurations"], "all SHACL Core shapes graphs, all supported formats",
 W_CASES.capitalize()+"; tests write a few shapes graphs and do not compare what is read back.",
 ["shacl/src/rdf", "shacl/src/ast", "rudof_lib/src/api/shacl"],
 [("SHACL writer", "shacl/src/rdf"), ("SHACL parser", "shacl/src/rdf/parsers"), ("new blank node labels", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs")],
 ["serialised shapes graph", "validation report"],
 technique="runtime monitor: round-trip of generated shapes graphs with independent isomorphism check, and reference report before and after",
 note="Shapes that are neither targeted nor referenced, and sh:group, are outside the promise.")

prop("C20", "Every input is processed or refused with an error",
 "Whatever document is given as a schema, shapes graph, shape map, query, data, property graph, type map, DCTAP table, configuration or prefix, loading it and using what was loaded (validation, serialisation, conversion, inspection, queries) ends with a result or an error: it never aborts the program, overflows the stack or hangs.",
 ["inputs"], "all documents nested at most 64 levels, in every language read",
 "Tests give well-formed documents; what breaks parsers and engines is the unlimited space of others.",
 ["shex_ast/src", "shacl/src", "rudof_rdf/src", "pgschema/src", "dctap/src", "shapes_converter/src", "rudof_lib/src"],
 [("parsers", "shex_ast/src/compact"), ("engines", "shex_validation/src"), ("converters", "shapes_converter/src")],
 ["process exit", "panic messages", "elapsed time"],
 technique="runtime monitor: mutation of example and generated documents through every loader and follow-up operation in watched worker processes, with overflow checks and debug assertions on",
 note="Mutations of tokens and characters; worker crashes, panics and time-outs are violations.")

prop("C22", "Every result format tells the same validation results, in the requested order",
 "Validation results are the same in whatever form they are asked for. ShEx: JSON, CSV and the compact and detailed tables have exactly one entry per association of the session's results, naming the node, the shape and the verdict the session holds. SHACL: the report has the same results, with the same properties, in every RDF format; the compact and detailed tables have exactly one row per result with its severity, focus node, component, path, value and source shape; the minimal form tells whether the data conforms and the numbers of violations and warnings. CSV and tables group the results by the requested sort key.",
 ["inputs"], "all validation results of ShEx and SHACL, prefix declarations and sort orders",
 "Tests look at one or two outputs; users and tools read each of the formats, with all kinds of nodes, prefixes and orders.",
 ["rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs", "rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs", "shex_ast/src/shapemap/result_shape_map.rs", "shacl/src/validator/report", "rudof_lib/src/display"],
 [("ShEx results", "shex_ast/src/shapemap/result_shape_map.rs"), ("SHACL report", "shacl/src/validator/report"), ("tables", "rudof_lib/src/display/table.rs")],
 ["the serialised results in every format"],
 technique="runtime monitor: each format is parsed back and matched one to one with the results of the session; groups of the sort key must be contiguous",
 note="The order inside groups and the wording of details are free; blank node labels of SHACL reports may be renamed.")

prop("C18", "Property graphs are validated against PGSchema types as the types say",
 "A node or edge conforms to a PGSchema type exactly when its labels are one of the label sets the type describes (single labels, references to types, AND, OR) and its record has exactly the keys of one of the alternatives the type allows (each-of, one-of, optional), every value set satisfying the type, cardinality and CHECK conditions of its key; for edges the same of both end nodes. There is one result per association of the type map, in order, the same in every result format, whatever the documents the graph is spread over.",
 ["inputs", "histories"], "all PGSchemas without cyclic references, property graphs and type maps",
 "Tests validate a handful of example graphs; label and record algebra, cardinalities and conditions combine freely.",
 ["pgschema/src", "rudof_lib/src/api/pgschema"],
 [("type semantics", "pgschema/src/label_property_spec.rs"), ("record and value types", "pgschema/src/record_type.rs"), ("schema builder", "pgschema/src/parser/pgs_builder.rs"), ("graph merge", "pgschema/src/pg.rs")],
 ["validation results in JSON, CSV and text"],
 technique="runtime monitor: reference model of labels, records and values compared against validation results on generated schemas, graphs and type maps",
 note="Mixed operators are parenthesised; expected failures (!) of type maps are not implemented by the library and not claimed.")

prop("C19", "Shape maps associate exactly the nodes their selectors describe with shapes",
 "Validation judges exactly the associations the shape map describes: an IRI or literal selects itself, a triple pattern the subjects or objects of matching triples, a SPARQL query its solutions; prefixed names and relative IRIs are resolved with the prefixes of the data (nodes) or of the schema (shapes) and the given bases; START is the start shape. The same holds after writing the shape map in compact syntax and reading it again, and when associations are added one by one to a loaded shape map or to none.",
 ["inputs", "histories"], "all shape maps in compact syntax, RDF graphs and prefix maps",
 "Tests parse a few shape maps and validate fewer; selectors combine with any node, literal, prefix map and layout.",
 ["shex_ast/src/shapemap", "shex_ast/src/compact/shapemap_grammar.rs", "shex_ast/src/compact/shapemap_compact_printer.rs", "rudof_lib/src/api/shex/implementations"],
 [("selectors", "shex_ast/src/shapemap/node_selector.rs"), ("grammar", "shex_ast/src/compact/shapemap_grammar.rs"), ("writer", "shex_ast/src/compact/shapemap_compact_printer.rs"), ("adding", "rudof_lib/src/api/shex/implementations/add_node_shape_to_shapemap.rs")],
 ["validation results per node and shape", "the written shape map"],
 technique="runtime monitor: an independent selection of the nodes on the generated graph is compared with the associations that validation reports, for the map as given, as written and read again, and as extended",
 note="Blank nodes are compared by their number per shape and verdict; literals in selectors are in canonical form.")

prop("C31", "Data behind a SPARQL endpoint give the answers of the same data in memory",
 "Validating (ShEx with fixed or selector shape maps, SHACL in both modes), querying (SELECT, ASK, CONSTRUCT, DESCRIBE) and inspecting nodes of data behind a SPARQL endpoint, alone or together with local data, gives what the same triples give when loaded in memory. When a request fails (HTTP errors, refusals beyond the retries, cut or malformed responses, lost connections) the operation reports an error: it never turns into a verdict, a report or an answer, and it leaves no trace, so that repeating the operation gives the right result. Refusals with 429 are retried after Retry-After, a limited number of times, and requests to one endpoint are spaced by about a second.",
 ["inputs", "fault points", "histories"], "all data, schemas, shapes and queries supported on endpoints; all positions and kinds of failed requests",
 "The tests have no endpoint to ask (the sandbox and the CI have no network): nothing of this is executed by them.",
 ["rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs", "sparql_service/src/srdf_data/rdf_data.rs", "rudof_lib/src/api/data/implementations/load_data.rs", "shacl/src/validator", "shex_validation/src"],
 [("requests, retries, rate limit and cache", "rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs"), ("local and remote data together", "sparql_service/src/srdf_data/rdf_data.rs"), ("errors while validating", "shacl/src/validator/constraints/mod.rs")],
 ["verdicts, reports, answers and errors", "requests received by the endpoint (text, time, fault)"],
 technique="runtime monitor: a SPARQL endpoint on the loopback interface with planned faults and a request log; results are compared with an in-memory session, failures must surface as errors, and the log is checked for retries and spacing",
 note="Endpoint data have no blank nodes and canonical literals; CLOSED shapes are documented as unsupported on endpoints.")

# planted bugs that were missed at first, and what that led to
STRENGTHENED = {
 "b03-split-parents": "conjuncts about properties of shapes higher up, chains of extensions",
 "b03-scope-union": "conjuncts that several parents have in common, with alternatives",
 "b31-cache-mark": "more cases (1200, 144 at a time)",
 "b05-cache-min": "cardinalities beyond 255 are generated",
 "b06-siblings": "sibling qualified shapes template in the generator",
 "b07-escape-cr": "special characters in the strings of the data",
 "b10-strict-predicate": "documents with an invalid IRI in any position",
 "b20-pgs-number": "token-class mutations (numbers, names) and a PGSchema generator",
}
