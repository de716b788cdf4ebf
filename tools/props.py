import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [], "hook_needed":None}})
PA="bluejay-parser/src/"; VA="bluejay-validator/src/"; EX=VA+"executable/document/"; OP=VA+"executable/operation/"
p("C01","Parsing any text yields a document or located errors, never a crash",
 "For every input text, parsing it as an executable document, a schema document or a value terminates without a panic and returns either a document or at least one error. Every reported location lies inside the text, on character boundaries, as does every node's span, which delimits the node's own text: reading that text alone in its place gives the same node (a fragment spread may leave out its directives); the line/column locations given for errors are those of the span's start in the text. Rendering those errors, as a text report or as GraphQL errors, succeeds for every input including multi-byte text and the graphql-ruby compatibility option.",
 ["inputs","configurations"],"all Unicode strings (nesting depth bounded), all parse entry points, both values of the ruby-compatibility option",
 "The suite parses about 40 fixed documents; none contains arbitrary bytes, truncated tokens at end of input or multi-byte text around an error.",
 [PA+"lexer/logos_lexer.rs",PA+"lexer/logos_lexer/string_lexer.rs",PA+"lexer/logos_lexer/block_string_lexer.rs",PA+"ast/tokens.rs",PA+"error.rs",PA+"error/format_errors.rs",PA+"span.rs"],
 [("error recovery: all lex errors collected, else one parse error",PA+"ast/parse.rs"),("span merge/line-column computation",PA+"error.rs")],["Result of Parse::parse","Error::into_graphql_errors","Error::format_errors"])
p("C02","Executable documents: exactly the grammar is accepted, and the AST is faithful",
 "A text is accepted as an executable document exactly when it is a non-empty sequence of operation and fragment definitions of the GraphQL grammar. The resulting document contains precisely the operations, fragments, selections, aliases, arguments, directives, variables, types and values written in the text, in the order written.",
 ["inputs","programs"],"all executable documents generated from the grammar, and all single- or multi-token mutations of them",
 "Snapshot tests cover a handful of hand-written documents; acceptance and faithfulness are claims over an infinite language and its complement.",
 [PA+"ast/executable/executable_document.rs",PA+"ast/executable/operation_definition.rs",PA+"ast/executable/field.rs",PA+"ast/executable/selection.rs",PA+"ast/value.rs",PA+"ast/tokens.rs"],
 [("recursive descent FromTokens/ParseDirectly per node",PA+"ast/from_tokens.rs")],["bluejay_core executable traits over the parsed document"])
p("C03","Schema documents: exactly the grammar is accepted, and the AST is faithful",
 "A text is accepted as a type-system document exactly when it is a non-empty sequence of schema, directive and type definitions of the GraphQL grammar (type extensions are not supported and are rejected). The parsed definitions carry precisely the names, descriptions, fields, arguments, types, default values, directives, interfaces, union members, enum values and directive locations written, in order.",
 ["inputs","programs"],"all schema documents generated from the grammar, and all token mutations of them",
 "Snapshot tests parse a few schemas; neither rejection nor faithful retention of every part can be sampled by hand.",
 [PA+"ast/definition/definition_document.rs",PA+"ast/definition/directive_definition.rs",PA+"ast/definition/object_type_definition.rs",PA+"ast/definition/input_value_definition.rs"],
 [("keyword dispatch per definition",PA+"ast/definition/definition_document.rs")],["bluejay_core definition traits over the document's definitions"])
p("C04","Literal values denote exactly what the GraphQL lexical rules say",
 "Every string (escapes, \\u forms, surrogate pairs), block string (indentation and blank line removal, escaped triple quotes, all line terminators), integer and float literal is read to exactly the value the GraphQL lexical grammar assigns to it. Malformed literals and numbers that do not fit the value type (32-bit integers, finite floats) are rejected rather than read to another value.",
 ["inputs"],"all string, block string, integer and float literals, well formed or not",
 "Unit tests check about a dozen literals; the escape, indentation and range rules interact over all strings.",
 [PA+"lexer/logos_lexer.rs",PA+"lexer/logos_lexer/string_lexer.rs",PA+"lexer/logos_lexer/block_string_lexer.rs"],
 [("escape decoding",PA+"lexer/logos_lexer/string_lexer.rs"),("block string value",PA+"lexer/logos_lexer/block_string_lexer.rs")],["Value::as_ref of a parsed literal"])
p("C05","Whitespace, commas, comments and BOMs never change what a document means",
 "Inserting or removing ignored text (white space, any line terminator, commas, comments, byte order marks) between the tokens of a document never changes whether it parses or the document obtained. No two distinct token sequences are merged or split by ignored text, other than where tokens need a separator.",
 ["inputs","programs"],"all token sequences (valid or not) under all insertions of ignored text",
 "Tests contain one fixed layout per document.",
 [PA+"lexer/logos_lexer.rs",PA+"ast/tokens.rs"],[("logos skip patterns",PA+"lexer/logos_lexer.rs")],["equality of parsed documents"])
p("C06","Ruby compatibility only adds accepted documents and changes no meaning",
 "Every text accepted by the strict parser is accepted with graphql-ruby compatibility enabled and yields the same document. What the option additionally accepts is limited to raw line breaks inside ordinary strings and tokens directly following numbers, read as the string with the line break, respectively as two tokens.",
 ["inputs","configurations"],"all texts, with the option off and on",
 "Two fixture documents exercise the option; a relation between two configurations is over all inputs.",
 [PA+"lexer.rs",PA+"lexer/logos_lexer.rs",PA+"lexer/logos_lexer/string_lexer.rs",PA+"ast/parse.rs"],[("LexOptions",PA+"lexer.rs")],["parse_with_options results"])
p("C07","Printing an executable document and reparsing it gives the same document",
 "For every parsed executable document, its printed form parses, and the reparsed document has the same operations, fragments, selections, arguments, directives, variables, defaults and exact values in the same order. Printing the reparsed document gives the same text again; printing a single value likewise round-trips.",
 ["inputs","programs"],"all executable documents and values",
 "Printer tests round-trip a few fixtures with ordinary strings and numbers.",
 ["bluejay-printer/src/executable/","bluejay-printer/src/value.rs","bluejay-printer/src/string_value.rs"],[("Display-based printers","bluejay-printer/src/executable")],["ExecutableDocumentPrinter::to_string"])
p("C08","Printing a schema and reparsing it gives the same schema",
 "For every resolvable schema, its printed SDL parses and resolves to a schema with the same root operations, types, fields, arguments, default values, interfaces, members, enum values, directive definitions, applied directives and descriptions. Printing the reparsed schema gives the same text again.",
 ["inputs","programs"],"all resolvable schemas, including arbitrary description text and default values",
 "Snapshot tests print fixed schemas with tame descriptions.",
 ["bluejay-printer/src/definition/","bluejay-printer/src/string_value.rs","bluejay-printer/src/definition/schema_definition.rs"],[("SchemaDefinitionPrinter","bluejay-printer/src/definition/schema_definition.rs")],["SchemaDefinitionPrinter::to_string"])
p("C09","Schemas resolve exactly when references are sound, and resolve faithfully",
 "A parsed schema document becomes a schema exactly when type and directive names are unique, every referenced type and directive exists and is of the right kind for its position (input, output, object, interface), and root operation types can be determined; otherwise it is rejected with errors, without panicking. In an accepted schema, lookups by name, root types, field and argument types, union members, interface implementations and possible types all agree with the document, and the built-in scalars, directives and introspection types and fields are present unless overridden.",
 ["inputs","programs"],"all schema documents: valid ones and ones with injected reference, kind or duplication faults",
 "The error fixtures show single faults in fixed places.",
 [PA+"ast/definition/definition_document.rs",PA+"ast/definition/schema_definition.rs",PA+"ast/definition/definition_document/definition_document_error.rs","bluejay-core/src/definition/"],[("TryFrom<&DefinitionDocument> for SchemaDefinition",PA+"ast/definition/definition_document.rs")],["SchemaDefinition::try_from and core SchemaDefinition trait"])
p("C10","Schema validation reports exactly the invalid types",
 "Schema validation reports an error exactly for enums with repeated values, input objects with repeated field names, and input objects that can never be given a finite value because they require themselves through non-null non-list fields. Schemas without such faults produce no errors, however types are ordered or named. A user-defined rule is shown every input object and enum of the schema exactly once.",
 ["inputs","programs"],"all schemas, all input-object reference graphs",
 "Fixtures hold one small cycle each; cycle detection is a graph property.",
 [VA+"definition/"],[("InputObjectTypeDefinitionsCircularReferences",VA+"definition/rules")],["definition::BuiltinRulesValidator::validate"])
p("C11","Validation accepts exactly existing fields with right sub-selections",
 "Against any schema, validating any document reports an error if some selected field does not exist on the type it is selected on, a leaf field has a sub-selection, or a composite field lacks one, wherever it occurs (operations, nested, inline fragments, fragments). If none of these occurs, no such error is reported; every error of this kind concerns a field at fault.",
 ["inputs","programs"],"all pairs of a schema and a document, valid or with injected faults at any depth",
 "Fixture queries against one schema place each fault in a single position.",
 [EX+"rules/field_selections.rs",EX+"rules/leaf_field_selections.rs",EX+"visitor.rs",EX+"orchestrator.rs","bluejay-core/src/definition/type_definition.rs"],[("scoped type traversal",EX+"orchestrator.rs")],["validate errors"])
p("C12","Validation checks every argument: known, unique, required, well-typed",
 "Validating any document reports an error exactly when some field or directive argument is undefined for its field or directive, is repeated, is a required one without default left out or null, or has a literal value that cannot be coerced to its declared type. This holds for arguments at any depth and for values nested in lists and input objects, including default values of variables.",
 ["inputs","programs"],"all pairs of schema and document; all values of all input types",
 "Fixtures contain a few bad arguments; the value space is infinite.",
 [EX+"rules/argument_names.rs",EX+"rules/argument_uniqueness.rs",EX+"rules/required_arguments.rs",EX+"rules/value_is_valid.rs"],[("argument rules",EX+"rules")],["validate errors"])
p("C13","Validation checks directives: defined, in a legal place, not repeated",
 "Validating any document reports a directive error exactly when an applied directive is not defined in the schema, is used at a location its definition does not list, or a non-repeatable directive is applied more than once at one place. Each executable location (operation, field, fragment definition, spread, inline fragment, variable definition) is distinguished.",
 ["inputs","programs"],"all schemas' directive definitions and all placements of directives in documents",
 "Fixtures cover a couple of locations.",
 [EX+"rules/directives_are_defined.rs",EX+"rules/directives_are_in_valid_locations.rs",EX+"rules/directives_are_unique_per_location.rs"],[("directive rules",EX+"rules")],["validate errors"])
p("C14","Validation checks fragments: defined, unique, used, acyclic, possible",
 "Validating any document reports a fragment error exactly when fragment names repeat, a spread has no target, a fragment is the target of no spread in the document, fragments spread each other in a cycle, a type condition names an unknown or non-composite type, or a spread or inline fragment can never apply to its parent type. Acyclic documents never produce a cycle error and validation terminates on cyclic ones.",
 ["inputs","programs"],"all fragment reference graphs and all pairs of parent type and type condition over all schemas",
 "Fixtures have graphs of at most three fragments and a few type pairs.",
 [EX+"rules/fragment_name_uniqueness.rs",EX+"rules/fragment_spreads_must_not_form_cycles.rs",EX+"rules/fragment_spread_is_possible.rs",EX+"rules/fragments_must_be_used.rs",EX+"rules/fragment_spread_target_defined.rs"],[("fragment rules",EX+"rules")],["validate errors"])
p("C15","Validation checks variables: unique, input-typed, defined, used, compatible",
 "Validating any document reports a variable error exactly when an operation repeats a variable name, gives a variable a type that is not an input type, uses (directly or through any chain of fragments) a variable it does not define, leaves a defined variable unused, or uses a variable where its type, nullability and defaults do not allow it. Uses nested inside list and object literals and in directive arguments count.",
 ["inputs","programs"],"all schemas and documents with variables used at any position, shared fragments, several operations",
 "Fixtures use variables at top level of arguments in one operation.",
 [EX+"rules/variable_uniqueness.rs",EX+"rules/variables_are_input_types.rs",EX+"rules/all_variable_uses_defined.rs",EX+"rules/all_variables_used.rs",EX+"rules/all_variable_usages_allowed.rs"],[("variable rules",EX+"rules"),("variable_usages per path root",EX+"path.rs")],["validate errors"])
p("C16","Selections that could conflict in a response are rejected, others accepted",
 "Validating any document reports a merge conflict exactly when two selections with the same response name in one selection set, including through any nesting of fragments, can both apply to an object yet name different fields or arguments, or return differently shaped types. Selections on different object types that can never meet may differ in field and arguments but not in response shape; a document without such a pair produces no conflict error.",
 ["inputs","programs"],"all selection sets over all schemas, nested through fragments and abstract types",
 "Fixtures list about twenty pairs of fields from the specification.",
 [EX+"rules/field_selection_merging.rs"],[("FieldSelectionMerging",EX+"rules/field_selection_merging.rs")],["validate errors"])
p("C17","Validation checks operations: names, anonymity, root types, subscriptions",
 "Validating any document reports an operation error exactly when operation names repeat, an anonymous operation is not alone, an operation's root type is not defined in the schema, or a subscription does not select exactly one top-level response field. Documents without these faults produce no operation error.",
 ["inputs","programs"],"all sets of operations over schemas with any subset of root types; all subscription selection sets including fragments",
 "Fixtures have one or two operations each.",
 [EX+"rules/named_operation_name_uniqueness.rs",EX+"rules/lone_anonymous_operation.rs",EX+"rules/operation_type_is_defined.rs",EX+"rules/subscription_operation_single_root_field.rs"],[("operation rules",EX+"rules")],["validate errors"])
p("C18","Validation verdicts do not depend on layout, order or names",
 "Renaming fragments, variables, aliases or operations consistently, reordering definitions, arguments or variable definitions, or wrapping a selection in an inline fragment on its own type never changes whether a document is valid. Running several rules or analyzers together yields exactly the errors and outputs that running each alone yields.",
 ["inputs","programs"],"all pairs of schema and document, valid or not, under all such rewritings; all combinations of rules",
 "No test relates the verdicts of two documents or of two rule sets.",
 [EX+"orchestrator.rs",EX+"rules.rs",VA+"executable/cache.rs"],[("Orchestrator over tuples of rules",EX+"orchestrator.rs")],["validate/analyze results"])
p("C19","Input coercion accepts exactly the coercible values and locates each fault",
 "A literal or JSON value is accepted for an input type exactly when the GraphQL input coercion rules allow it: nullability, scalar kinds, enum names, list wrapping, required, unknown and repeated object fields, oneOf objects and custom scalar validity. When it is rejected, each reported fault carries the path within the value of an actual fault, and every fault in an input object or list is reported.",
 ["inputs","programs"],"all input types over all schemas and all literal and JSON values",
 "Unit tests coerce a few dozen values against one schema.",
 [VA+"value/input_coercion.rs",VA+"value/input_coercion/error.rs",VA+"path.rs"],[("CoerceInput",VA+"value/input_coercion.rs")],["coerce_value / coerce_const_value"])
p("C20","Variable values are checked exactly against the operation's declarations",
 "For any operation and any JSON object of variable values, a problem is reported exactly for each declared non-null variable without default that is missing, each provided value that is not coercible to its variable's type, and each provided value that the operation does not declare. Nothing else is reported.",
 ["inputs","programs"],"all variable definitions over all schemas and all JSON objects",
 "Unit tests use a few variables of simple types.",
 [OP+"analyzers/variable_values_are_valid.rs"],[("VariableValuesAreValid",OP+"analyzers/variable_values_are_valid.rs")],["analyze output"])
p("C21","Query depth is the deepest field nesting that will execute",
 "For every valid operation and variable values, the computed depth equals the largest number of nested fields on any path of the operation after expanding fragments and dropping selections that skip/include remove under the given variable values and defaults. Inlining fragments, aliasing or adding type conditions never changes it.",
 ["inputs","programs"],"all valid operations over all schemas, with fragments, directives and variable values",
 "Unit tests compute it for a few documents.",
 [OP+"analyzers/query_depth.rs",OP+"orchestrator.rs"],[("QueryDepth",OP+"analyzers/query_depth.rs"),("skip/include evaluation",OP+"orchestrator.rs")],["analyze output"])
p("C22","Complexity cost equals the worst case over the concrete types returned",
 "For every valid operation, the cost equals the maximum over concrete types of the sum, over the response keys selected by fields whose enclosing type condition admits that type, of the field's cost plus its children's cost, times the field's multiplier. Selections of one response key are merged (highest cost and multiplier), zero-cost leaves are free, skipped selections count nothing, and the Relay computer weighs fields by @cost and scales connection edges and nodes by the page size (first/last as literals, variable values or variable defaults), while a user-defined computer sets costs and multipliers freely. The cost is never below that of any concrete result, stops at the largest number instead of overflowing, and never falls when a selection is added.",
 ["inputs","programs"],"all valid operations over all schemas incl. interfaces and unions, with variable values",
 "Unit tests check about twenty documents on one schema.",
 [OP+"analyzers/complexity_cost.rs",OP+"analyzers/complexity_cost/relay_cost_computer.rs"],[("scoped selection tree",OP+"analyzers/complexity_cost.rs"),("connection multiplier",OP+"analyzers/complexity_cost/relay_cost_computer.rs")],["analyze output"])
p("C23","Every input list longer than the limit is reported, and nothing else",
 "For any limit, the input-size analysis of an operation reports exactly the lists longer than the limit that arguments of included fields and of directives on selections, fragments and the operation receive, whether written as literals, nested in objects or in lists within the limit, or supplied through variable values or else variable defaults, each with its true length and path. Lists within the limit are never reported.",
 ["inputs","programs","configurations"],"all valid operations, variable values and limits",
 "Unit tests check a few lists.",
 [OP+"analyzers/input_size.rs"],[("InputSize",OP+"analyzers/input_size.rs")],["analyze output"])
p("C24","Every use of a deprecated element is reported with its reason, nothing else",
 "The deprecation analysis of an operation reports exactly the deprecated fields selected, arguments passed, enum values and input fields used in literals, variable values and defaults, each with its name and its reason (or the default reason). Skipped fields are not reported (whether the arguments written in a skipped selection are is left open).",
 ["inputs","programs"],"all schemas with @deprecated anywhere and all valid operations and variable values",
 "Unit tests check one deprecation at a time.",
 [OP+"analyzers/deprecation.rs"],[("Deprecation",OP+"analyzers/deprecation.rs")],["analyze output"])
p("C25","The requested operation is the one analysed, alone and in combination",
 "Analysing with an operation name analyses the operation of that name; without a name, the only operation; and otherwise, when there is no such operation or the choice is ambiguous, an error is returned. Results depend on no other operation in the document, and analyzers run together give the results each gives alone.",
 ["inputs","programs","configurations"],"all documents with several operations, all names given or not, all combinations of analyzers",
 "Tests mostly hold single operations.",
 [OP+"orchestrator.rs",OP+"analyzers.rs"],[("operation resolution",OP+"orchestrator.rs")],["Orchestrator::analyze result"])
p("C26","A visibility-restricted schema shows exactly the visible part of the schema",
 "For any schema and any visibility policy, the restricted schema exposes exactly the elements that are allowed by the policy: fields, arguments, input fields, enum values, union members, implementations and directives whose own visibility and whose referenced type's visibility permit it, and of the types those reachable from the visible roots. Nothing hidden can be reached through any lookup, and nothing visible is lost or altered.",
 ["inputs","programs","configurations"],"all schemas and all visibility policies",
 "The integration test uses one schema with one policy.",
 ["bluejay-visibility/src/schema_definition.rs","bluejay-visibility/src/warden.rs","bluejay-visibility/src/cache.rs","bluejay-visibility/src/field_definition.rs"],[("Warden decisions cached per element","bluejay-visibility/src/cache.rs")],["core SchemaDefinition trait over the restricted schema"])
p("C27","Restricted schemas validate and print like the equivalent plain schema",
 "With a policy that hides nothing the restricted schema is indistinguishable from the original: same lookups, same validation errors, same analysis results. With any policy, validating and analysing a document against the restricted schema gives the same verdict as against a plain schema from which the hidden elements were deleted, and printing it gives the SDL of that schema.",
 ["inputs","programs","configurations"],"all schemas, policies and documents",
 "No test validates documents against restricted schemas.",
 ["bluejay-visibility/src/"],[("trait implementations delegate to wrapped schema","bluejay-visibility/src")],["validate, print over the restricted schema"])
p("C28","Schema comparison reports exactly the differences, correctly classified",
 "Comparing two schemas reports exactly one change per difference in types, kinds, fields, arguments, types of these, default values, interfaces, enum values, union members, input fields, descriptions, directive definitions and applied directives, at the right path and with a message naming the element and, where something became something else, what it was and what it is; comparing a schema with itself or a reordering of itself reports nothing. Each change is classified breaking, dangerous or safe according to its effect on clients, and the three classes partition the changes.",
 ["inputs","programs"],"all pairs of schemas related by sequences of edits",
 "The suite compares a handful of schema pairs.",
 ["bluejay-schema-comparator/src/diff/","bluejay-schema-comparator/src/changes.rs","bluejay-schema-comparator/src/result.rs"],[("diff structs","bluejay-schema-comparator/src/diff"),("criticality table","bluejay-schema-comparator/src/changes.rs")],["compare(..).changes"])
p("C29","A schema change reported as safe breaks no existing operation",
 "If comparing an old with a new schema reports no breaking and no dangerous change, every operation valid against the old schema is valid against the new one. Swapping the schemas turns additions into removals and keeps the set of touched paths.",
 ["inputs","programs"],"all pairs of schemas related by edits and all operations valid on the old one",
 "Tests never run an operation against both schemas.",
 ["bluejay-schema-comparator/src/changes.rs","bluejay-schema-comparator/src/diff/"],[("criticality computation","bluejay-schema-comparator/src/changes.rs")],["compare + validate"])
p("C30","Generated types read every conforming response and lose nothing",
 "For any schema and valid query inside the documented limits, the generated types compile, deserialize every response that conforms to the query into values equal to the data (nulls, lists, enums incl. unknown ones, unions by __typename, nested selections, fragments), and serialize inputs to the JSON the schema expects. Responses that violate nullability or shape are refused (left open: objects written as positional JSON arrays, keys the query did not ask for, a missing key for a nullable field).",
 ["inputs","programs"],"all schemas and queries inside the documented limits, and all conforming and mutated responses",
 "The tests and examples generate types for a few fixed schemas and queries.",
 ["bluejay-typegen-macro/src/","bluejay-typegen/src/lib.rs"],[("executable/ input / enum builders","bluejay-typegen-macro/src/executable_definition")],["compiled types' serde behaviour"])
p("C31","Type generation refuses invalid schemas and queries at compile time",
 "A query that is invalid for the schema, uses a construct outside the documented limits, a schema that is itself invalid, or a faulty use of the macro (missing files, unknown or repeated options, missing or superfluous scalar aliases, items that do not belong) makes type generation fail with a compile error rather than generating types. Valid ones never fail.",
 ["inputs","programs"],"all schemas and queries with an injected fault",
 "trybuild cases cover one instance of some faults.",
 ["bluejay-typegen-macro/src/validation/","bluejay-typegen-macro/src/lib.rs"],[("validation rules","bluejay-typegen-macro/src/validation")],["rustc diagnostics"])
p("C32","Visibility picks versions and overrides exactly",
 "When several fields, arguments, input fields, enum values or union members of one owner share a name and the warden shows exactly one of them, the visibility-scoped schema behaves in every lookup, enumeration, validation, analysis and printout as the plain schema that contains only the shown one. Default values the warden replaces or removes, directive uses whose arguments it hides, and custom-scalar coercion it overrides take effect everywhere the plain schema's own would. The position of the hidden versions relative to the shown one never matters.",
 ["inputs","configurations"],"all schemas with hidden namesakes and all overriding wardens",
 "No existing test declares two elements of the same name.",
 ["bluejay-visibility/src/"],[("name lookups among visible elements","bluejay-visibility/src"),("warden hooks","bluejay-visibility/src/warden.rs")],["duplicates are not judged by the schema resolution"])
p("C33","Validation errors point at the node they complain about",
 "Every error reported for an executable document carries exactly the source locations of the offending nodes: the field, argument, directive, fragment, spread, variable definition or value that breaks the rule, and no other, however deeply it is nested and however many fragments lie in between. Its message names that element and the type, argument or operation concerned. Two different faults never collapse into one report and none is reported at a correct node.",
 ["inputs","programs"],"all schemas, documents, layouts and combinations of faults",
 "Unit tests compare the errors of a few documents with values built by hand and rarely look at spans.",
 ["bluejay-validator/src/executable/document/error.rs","bluejay-validator/src/executable/document/error","bluejay-validator/src/value/input_coercion/error.rs","bluejay-validator/src/executable/document/rules"],[("spans attached to nodes","bluejay-parser/src/ast"),("error annotations","bluejay-validator/src/executable/document/error.rs")],["GraphQLError message and locations"])
p("C34","Syntax errors point at the first token that cannot continue a document",
 "When a text is refused as executable or definition document, the first error is located at the first character sequence that is no token or, if every token is well-formed, at the first token after which no document can continue, with the end of the text reported as such; further errors follow in the order of the text. What the message names as expected is possible at that place, and its kind (not a token, value too large, malformed string, unexpected end, empty document) is the actual one. Every message appears in the formatted report.",
 ["inputs"],"all texts, in both lexical modes",
 "Snapshot tests cover a few dozen malformed texts.",
 ["bluejay-parser/src/ast/parse_error.rs","bluejay-parser/src/ast/tokens.rs","bluejay-parser/src/ast/from_tokens.rs","bluejay-parser/src/ast/try_from_tokens.rs","bluejay-parser/src/lexer","bluejay-parser/src/error.rs"],[("errors raised at the current token","bluejay-parser/src/ast/tokens.rs")],["parse(..).err -> GraphQLError, format_errors"])
p("C35","Schema errors are the faults of the document, at the tokens at fault",
 "Every error of schema resolution names a type, directive or definition that is at fault and is located at the token that refers to it, or at each of the definitions that share the name; every unresolvable reference in the document is reported once, and root-operation faults are reported when there is no other. The definition validator's errors are likewise located at each repeated input field or enum value and at each input object that requires itself, together with exactly the fields that close the circle.",
 ["inputs"],"all schema documents that parse",
 "Snapshot tests cover a handful of schema documents with one fault each.",
 ["bluejay-parser/src/ast/definition/definition_document.rs","bluejay-parser/src/ast/definition/definition_document","bluejay-validator/src/definition"],[("errors collected while resolving","bluejay-parser/src/ast/definition/definition_document.rs"),("annotations","bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs"),("definition errors","bluejay-validator/src/definition/error.rs")],["SchemaDefinition::try_from(&document).err -> GraphQLError","definition::BuiltinRulesValidator::validate"])
p("C36","The work done on a text grows polynomially with it",
 "Parsing, printing, resolving, validating, restricting or comparing a text never takes work exponential in its size, however often its fragments, types and values mention each other, be it valid or not: documents and schemas of a few kilobytes are done within seconds of CPU time and without exhausting memory. The same holds for the analysis of an operation whose fragments are each spread once.",
 ["inputs"],"all texts whose fragments, selections, values or types are nested or chained to any depth, with any number of mentions per level",
 "Unit tests and benchmarks use small documents without chains of fragments; exponential work only shows at a depth they never reach.",
 ["bluejay-validator/src/executable/document/rules/field_selection_merging.rs","bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs","bluejay-validator/src/executable/document/rules/all_variables_used.rs","bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs","bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs","bluejay-validator/src/definition/rules/input_object_circular_references.rs","bluejay-visibility/src/cache.rs","bluejay-parser/src/lexer"],[("visited sets","bluejay-validator/src/executable/document/rules"),("merged scopes","bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs")],["CPU time and memory of a process that does the work"])
p("C37","The same input gives the same results in the same order",
 "Parsing, resolving, validating, analysing, printing, restricting or comparing the same input again, in the same process or another, alone or after other work, gives the same results in the same order: errors with their messages and locations, listed definitions and members, changes, offenders, and printed text.",
 ["inputs","schedules","programs"],"all texts, schemas, policies, documents and pairs of schemas",
 "Tests compare results once, and mostly lists of one element; an order that depends on hashing differs from run to run.",
 ["bluejay-validator/src/executable/document/rules","bluejay-validator/src/executable/operation/analyzers","bluejay-parser/src/ast/definition/definition_document.rs","bluejay-schema-comparator/src/diff","bluejay-visibility/src"],[("maps that are iterated to produce results","bluejay-validator/src/executable/document/rules/field_selection_merging.rs")],["order of errors, changes, definitions, offenders"])
p("C38","An analyzer is shown the whole operation, once and in order",
 "An analyzer of an operation is shown every field the operation reaches, through nested selections, inline fragments and fragments, in document order, with entering and leaving properly nested, with the field's definition, the type it is selected on and whether @skip and @include let it into the response; every argument with its definition; and every variable definition. It is made for the operation, values and extra information it was asked for. In a tuple with others each analyzer is shown the same as alone.",
 ["inputs","programs","configurations"],"all valid operations, variable values and tuples of analyzers",
 "Tests see only the totals that the shipped analyzers compute for a few operations.",
 ["bluejay-validator/src/executable/operation/orchestrator.rs","bluejay-validator/src/executable/operation/visitor.rs","bluejay-validator/src/executable/operation/analyzer.rs"],[("visit of selections, directives, arguments, variable definitions","bluejay-validator/src/executable/operation/orchestrator.rs")],["calls on a user-defined Visitor"])
p("C39","Values, arguments and types are equal exactly when they mean the same",
 "Two values, literal or JSON, are equal exactly when they are of the same kind and denote the same value: the order of an object's fields and the spelling do not matter, the order and number of list items do. Argument lists are equivalent exactly when they give equal values to the same names, in any order, an absent list being an empty one. Types of fields, arguments and variables are equal exactly when they have the same shape, nullability and name, and they name and render themselves accordingly.",
 ["inputs"],"all pairs of values, argument lists and types",
 "No test compares values that differ in spelling or order only, or nearly equal ones.",
 ["bluejay-core/src/value.rs","bluejay-core/src/value/serde_json.rs","bluejay-core/src/argument.rs","bluejay-core/src/definition/input_type.rs","bluejay-core/src/definition/output_type.rs","bluejay-core/src/executable/variable_type.rs","bluejay-core/src/indexable.rs"],[("PartialEq for ValueReference","bluejay-core/src/value.rs"),("Arguments::equivalent","bluejay-core/src/argument.rs")],["==, Arguments::equivalent, display_name"])
p("C40","Every parsed node knows exactly where it stands in the source",
 "For every text that parses, the byte range of each node that has one (operation, fragment, selection set, field, inline fragment, directive, arguments and argument, value, name, variable, type; in schemas the names of input values, enum values and input objects, input types, defaults, directives) begins at its first token and ends at its last, whatever the layout, comments and characters around and inside it. Ranges are the identity of nodes: different nodes of a kind differ and are not equal, and parsing the same text again gives nodes that are equal and hash alike. Ranges combine, move and order as intervals do.",
 ["inputs"],"all executable documents, schema documents and values, with every layout and multi-byte character",
 "Tests show a few start positions in error messages; ends, nested nodes and odd layouts are never looked at.",
 ["bluejay-parser/src/span.rs","bluejay-parser/src/ast/executable/","bluejay-parser/src/ast/value.rs","bluejay-parser/src/ast/arguments.rs","bluejay-parser/src/ast/directive.rs","bluejay-parser/src/ast/definition/input_type.rs","bluejay-parser/src/lexer/logos_lexer.rs"],[("Span","bluejay-parser/src/span.rs"),("Hash and PartialEq of Field","bluejay-parser/src/ast/executable/field.rs"),("InputType::from_tokens","bluejay-parser/src/ast/definition/input_type.rs")],["HasSpan::span, Indexable::id, == and Hash of Field"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
