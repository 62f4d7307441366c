#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays valid JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

LEX = "bluejay-parser/src/lexer/logos_lexer.rs"
EXD = "bluejay-validator/src/executable/document/"
OPA = "bluejay-validator/src/executable/operation/"

p("C01", "Literals and tokens have exactly their GraphQL meaning",
  "Every number, string, block string, name, variable, punctuator, comment and ignored character in a document is accepted exactly when the GraphQL specification's lexical grammar accepts it, and a literal that is accepted yields exactly the value the specification defines (32-bit integers, finite floats, decoded escapes including surrogate pairs, block-string indentation removal). Literals that do not fit (integer overflow, non-finite float, lone surrogate, unterminated string) are rejected, never silently altered.",
  ["inputs"], "Every character sequence used as (part of) a document.",
  "Unit tests pin about forty literals; the property is about every interleaving of escapes, quotes, newlines, digits and trailing characters, where longest-match tokenisation makes neighbouring characters interact.",
  [LEX, "bluejay-parser/src/lexer/logos_lexer/string_lexer.rs", "bluejay-parser/src/lexer/logos_lexer/block_string_lexer.rs", "bluejay-parser/src/lexical_token"],
  [("logos token definitions and number/string callbacks", LEX), ("block_string_value", "bluejay-parser/src/lexer/logos_lexer/block_string_lexer.rs")],
  ["ExecutableDocument::parse", "Value::as_ref"])

p("C02", "Executable documents: accepted iff grammatical, and read back faithfully",
  "An executable document parses successfully exactly when its token sequence is derivable from the GraphQL grammar for executable documents (operations, fragments, selections, arguments, variables, directives, values), and at least one definition is present. When it parses, walking the result yields the same operations, names, aliases, arguments, values, types, directives and selections, in the order written, with nothing added, dropped or renamed.",
  ["inputs"], "Every token sequence.",
  "Tests parse a handful of kitchen-sink documents; acceptance and faithfulness quantify over all token sequences, including one-token deletions and insertions nobody wrote a test for.",
  ["bluejay-parser/src/ast/executable", "bluejay-parser/src/ast/value.rs", "bluejay-parser/src/ast/tokens.rs", "bluejay-parser/src/ast/argument.rs", "bluejay-parser/src/ast/directive.rs"],
  [("recursive-descent FromTokens/TryFromTokens implementations", "bluejay-parser/src/ast/executable"), ("token lookahead buffer", "bluejay-parser/src/ast/tokens.rs")],
  ["ExecutableDocument::parse"])

p("C03", "Schema documents: accepted iff grammatical, and read back faithfully",
  "A schema (type system) document parses successfully exactly when its token sequence is derivable from the GraphQL grammar for type-system definitions. The schema built from it exposes exactly the written definitions: names, descriptions, fields, arguments, types with their list/non-null wrapping, default values, directives, enum values, union members, interfaces, directive locations, repeatability and root operation types, in the order written.",
  ["inputs"], "Every token sequence.",
  "Tests parse a few schema files and a few error cases; the grammar has many optional parts (descriptions, directives, leading separators, defaults) whose combinations are not sampled.",
  ["bluejay-parser/src/ast/definition", "bluejay-parser/src/ast/definition/definition_document.rs"],
  [("FromTokens implementations of the definitions", "bluejay-parser/src/ast/definition")],
  ["DefinitionDocument::parse", "SchemaDefinition accessors"])

p("C04", "Diagnostics are total, non-empty, and point at the right place",
  "No text makes parsing, schema construction, validation or error rendering panic or fail to terminate. Whenever an input is rejected at least one error is reported, converting errors to GraphQL errors or to human-readable text keeps every one of them, and every position reported in a GraphQL error is the true line and column (counted in characters, starting at 1; lines end where the GraphQL grammar says) of the thing at fault: the first character at which an unreadable document stops being readable, or the name, value or construct a later error is about.",
  ["inputs"], "Every text, including malformed, multi-byte, multi-line and truncated ones.",
  "Tests check the positions of a few single-line ASCII errors; truncations at every byte, multi-byte characters and CR/LF mixtures are unbounded.",
  ["bluejay-parser/src/error.rs", "bluejay-parser/src/ast/parse_error.rs", "bluejay-parser/src/span.rs", "bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs", EXD + "error.rs"],
  [("SpanToLocation", "bluejay-parser/src/error.rs"), ("From<...Error> for Error", EXD + "error.rs")],
  ["Error::into_graphql_errors", "Error::format_errors"])

p("C05", "Schema construction resolves every reference or rejects the document",
  "A schema is built from a parsed schema document exactly when all its names are resolvable and unambiguous: unique type and directive names, one schema definition at most, one root per operation with a query root that is an object type, field types that are output types, argument and input-field types that are input types, interfaces and union members that exist and have the right kind, and directives that are defined. In a schema that was built every reference leads to the definition with that name, lists of implementors and root types are exact, and no accessor panics.",
  ["inputs", "programs"], "Every grammatical schema document.",
  "Tests build a few valid schemas and some single-error ones; dangling and duplicate references can occur at every reference site and interact with built-in definitions.",
  ["bluejay-parser/src/ast/definition/definition_document.rs", "bluejay-parser/src/ast/definition/schema_definition.rs", "bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs"],
  [("index building and reference resolution", "bluejay-parser/src/ast/definition/definition_document.rs")],
  ["SchemaDefinition::try_from", "SchemaDefinition accessors"])

p("C06", "Printing an executable document preserves its meaning",
  "Printing any parsed executable document yields text that parses, and the re-parsed document is equal to the original in every operation, fragment, selection, alias, argument, value, variable definition and directive. Printing is a fixed point: printing the re-parsed document gives the same text.",
  ["inputs"], "Every executable document.",
  "Snapshot tests cover a handful of documents; round-tripping must hold for every combination of optional parts and every literal value.",
  ["bluejay-printer/src/executable", "bluejay-printer/src/value.rs", "bluejay-printer/src/string_value.rs"],
  [("ExecutableDocumentPrinter", "bluejay-printer/src/executable"), ("ValuePrinter", "bluejay-printer/src/value.rs")],
  ["ExecutableDocumentPrinter::to_string"])

p("C07", "Printing a schema preserves the schema",
  "Printing any schema yields text from which a schema can be built again that is equal in every definition: types, descriptions, fields, arguments, default values, directives, enum values, members, interfaces, directive definitions and root operation types. In particular no description, string or number is altered and no root operation type appears or disappears.",
  ["inputs"], "Every schema that can be built.",
  "Snapshot tests cover a few schemas; descriptions and default values range over all strings and numbers, and the implicit-schema shorthand depends on which names exist.",
  ["bluejay-printer/src/definition", "bluejay-printer/src/value.rs", "bluejay-printer/src/string_value.rs"],
  [("SchemaDefinitionPrinter and its is_implicit shorthand", "bluejay-printer/src/definition/schema_definition.rs"), ("BlockStringValuePrinter", "bluejay-printer")],
  ["SchemaDefinitionPrinter::to_string"])

p("C08", "The schema diff reports exactly the differences",
  "Comparing a schema with itself reports nothing, and comparing two schemas reports one change for every addition, removal and modification of a type, field, argument, type reference, default value, description, enum value, union member, interface, directive definition, applied directive or its arguments, or root operation type, each naming the right element, and nothing else. Swapping the arguments turns every addition into the corresponding removal.",
  ["inputs", "histories"], "Every ordered pair of schemas.",
  "Tests compare two hand-written schemas with one large list of changes; missed or spurious changes depend on which element kinds change and combine.",
  ["bluejay-schema-comparator/src"],
  [("per-kind Diff structs", "bluejay-schema-comparator/src/diff"), ("Change::path/message", "bluejay-schema-comparator/src/changes.rs")],
  ["bluejay_schema_comparator::compare"])

p("C09", "A change reported as safe never breaks a valid request",
  "If every change between two schemas is reported as non-breaking, then each operation that is valid against the old schema is valid against the new one and keeps its response shape (setting aside selections that merge with a differently typed field of another type), with dangerous changes limited to those that can alter what a client observes at run time. The reported criticality is the same wherever the same kind of change occurs: removals and incompatible type changes are breaking, additions of required inputs are breaking, additions of optional inputs are not.",
  ["inputs", "histories"], "Every pair of schemas and every operation.",
  "Tests pin the criticality of a few type-wrapping changes; soundness quantifies over pairs of schemas and operations together.",
  ["bluejay-schema-comparator/src/changes.rs", "bluejay-schema-comparator/src/result.rs", "bluejay-validator/src/executable/document"],
  [("Change::criticality and safe type-change predicates", "bluejay-schema-comparator/src/changes.rs")],
  ["ComparisonResult", "Change::criticality", "BuiltinRulesValidator::validate"])

p("C10", "Only fields that exist may be selected, with sub-selections exactly where needed",
  "Validation reports a field selection exactly when the enclosing type (including through fragments, interfaces and unions, and the introspection fields) has no such field, a sub-selection on a leaf type exactly when one is present, and a missing sub-selection on a composite type exactly when it is absent. It reports nothing of the kind for any other document.",
  ["inputs"], "Every schema and parsed executable document.",
  "Fixture tests have a few documents per rule; scoping depends on nesting and type conditions to any depth.",
  [EXD + "rules/field_selections.rs", EXD + "rules/leaf_field_selections.rs", EXD + "orchestrator.rs"],
  [("scoped-type tracking while walking selections", EXD + "orchestrator.rs")],
  ["BuiltinRulesValidator::validate"])

p("C11", "Arguments are known, unique and complete",
  "For every field and directive in an executable document validation reports each argument that the definition does not declare, each argument given more than once, and each required argument (non-null without default) that is missing or the literal null, and reports no argument that is declared, given once and present.",
  ["inputs"], "Every schema and parsed executable document.",
  "Fixture tests hold one or two examples per error; sites (fields at depth, fragments, directives on each location) and requiredness/default combinations multiply.",
  [EXD + "rules/argument_names.rs", EXD + "rules/argument_uniqueness.rs", EXD + "rules/required_arguments.rs"],
  [("argument visitors", EXD + "orchestrator.rs")],
  ["BuiltinRulesValidator::validate"])

p("C12", "Literal values in documents conform to the type of their position",
  "Validation reports a literal argument value, nested list item or input-object field, or variable default exactly when it cannot be coerced to the declared input type: wrong scalar kind, unknown enum member, null for non-null, unknown, duplicate or missing required input fields, or a violated one-of rule. Variables inside otherwise literal values never cause such a report by themselves: they stand for a value of the right type.",
  ["inputs"], "Every schema, parsed document and literal.",
  "Fixture tests contain a few bad literals; correctness is about every wrapping of list/non-null around every kind at every nesting depth.",
  [EXD + "rules/value_is_valid.rs", "bluejay-validator/src/value/input_coercion.rs"],
  [("CoerceInput for schema definitions", "bluejay-validator/src/value/input_coercion.rs")],
  ["BuiltinRulesValidator::validate"])

p("C13", "Variables: defined once, of input type, defined where used, used where defined",
  "Validation reports a variable defined more than once in an operation, a variable whose declared type does not exist or is not an input type, a variable used by an operation (directly or through any chain of fragment spreads) that it does not define, and a defined variable that the operation never uses. It reports none of these for any other document; a variable counts as used where it stands in an argument of a field or directive that the schema defines.",
  ["inputs"], "Every schema and parsed executable document, with any fragment graph.",
  "Fixture tests contain a few operations; use through fragments is a reachability question over arbitrary, possibly cyclic fragment graphs shared by several operations.",
  [EXD + "rules/variable_uniqueness.rs", EXD + "rules/variables_are_input_types.rs", EXD + "rules/all_variable_uses_defined.rs", EXD + "rules/all_variables_used.rs"],
  [("per-fragment usage index propagated along spreads", EXD + "rules/all_variable_uses_defined.rs")],
  ["BuiltinRulesValidator::validate"])

p("C14", "A variable is used only where its type is allowed",
  "Validation reports a variable usage exactly when its declared type is incompatible with the position's type: list depth, named type and nullability are compared as the specification's variable-usage rule says, a nullable variable is allowed in a non-null position only if the variable has a non-null default or the position has a default, and positions include field and directive arguments, list items and input-object fields at any depth, directly or through fragments.",
  ["inputs"], "Every schema and parsed executable document.",
  "The rule is a relation over pairs of wrapped types times default combinations times kinds of position; tests list a few.",
  [EXD + "rules/all_variable_usages_allowed.rs"],
  [("are_types_compatible and value location tracking", EXD + "rules/all_variable_usages_allowed.rs")],
  ["BuiltinRulesValidator::validate"])

p("C15", "Fragments are unique, resolvable, composite, used, acyclic and applicable",
  "Validation reports duplicate fragment names, spreads of undefined fragments, type conditions that do not exist or are not composite, fragments never spread, spreads that take part in a cycle, and spreads (named or inline) whose type condition has no possible object type in common with the enclosing type. It reports none of these for any other document and terminates for every fragment graph.",
  ["inputs"], "Every schema and parsed executable document, with any fragment graph.",
  "Fixture tests contain one graph per rule; cycles and reachability quantify over all graphs, overlap over all pairs of composite types.",
  [EXD + "rules/fragment_name_uniqueness.rs", EXD + "rules/fragment_spread_target_defined.rs", EXD + "rules/fragment_spread_type_exists.rs", EXD + "rules/fragments_on_composite_types.rs", EXD + "rules/fragments_must_be_used.rs", EXD + "rules/fragment_spreads_must_not_form_cycles.rs", EXD + "rules/fragment_spread_is_possible.rs"],
  [("cycle search and possible-type intersection", EXD + "rules")],
  ["BuiltinRulesValidator::validate"])

p("C16", "Selections that cannot be merged are rejected, and only those",
  "Two selections with the same response name that can apply to the same object are reported unless they select the same field with the same arguments; two selections with the same response name are reported if their result types have different shape (leaf type, list or non-null wrapping, or recursively their sub-selections). Selections on distinct object types with the same shape, and repeated identical selections, are accepted, through any nesting of inline fragments and spreads.",
  ["inputs"], "Every schema and parsed executable document.",
  "The rule compares all pairs of fields reachable through fragments, recursively, with caching; fixtures list a few pairs.",
  [EXD + "rules/field_selection_merging.rs"],
  [("selection_set_valid, same_for_common_parents_by_name, same_response_shape", EXD + "rules/field_selection_merging.rs")],
  ["BuiltinRulesValidator::validate"])

p("C17", "Directives are defined, in a permitted location and not repeated",
  "Validation reports an applied directive exactly when the schema has no directive of that name, when the directive's definition does not list the place where it is applied (query, mutation, subscription, field, fragment definition, fragment spread, inline fragment, variable definition), or when a non-repeatable directive is applied more than once at the same place. Repeatable directives may be repeated.",
  ["inputs"], "Every schema and parsed executable document.",
  "Tests pin a few directive/location pairs; the property is the whole table of directives times locations times repetition.",
  [EXD + "rules/directives_are_defined.rs", EXD + "rules/directives_are_in_valid_locations.rs", EXD + "rules/directives_are_unique_per_location.rs"],
  [("directive visitors", EXD + "orchestrator.rs")],
  ["BuiltinRulesValidator::validate"])

p("C18", "Operations are unambiguous, have a root type, and subscriptions one root field",
  "Validation reports operations sharing a name, an anonymous operation that is not the only operation, an operation whose kind the schema has no root type for, and a subscription whose root selection (following fragments) does not produce exactly one response entry. It reports none of these for any other document whose fragments are defined once and do not spread themselves.",
  ["inputs"], "Every schema and parsed executable document.",
  "Fixture tests have one document per error; combinations of named/anonymous operations and fragment-nested subscription selections are not sampled.",
  [EXD + "rules/named_operation_name_uniqueness.rs", EXD + "rules/lone_anonymous_operation.rs", EXD + "rules/operation_type_is_defined.rs", EXD + "rules/subscription_operation_single_root_field.rs"],
  [("operation rules", EXD + "rules")],
  ["BuiltinRulesValidator::validate"])

p("C19", "Input coercion accepts exactly the values of a type",
  "Coercing a literal or a JSON value to an input type succeeds exactly when the GraphQL input-coercion rules admit it for that scalar, enum, input object, one-of input object, list or non-null type (a single item stands for a one-element list, integers may stand for floats, integers and strings for ids), and a failure names the offending path for each offending part. Literal and run-time coercion agree wherever both forms can express the value.",
  ["inputs"], "Every input type of a schema and every value.",
  "Unit tests check a few dozen pairs; types nest wrappers and input objects to any depth and values nest likewise.",
  ["bluejay-validator/src/value/input_coercion.rs", "bluejay-validator/src/value/input_coercion/error.rs", "bluejay-core/src/value.rs"],
  [("CoerceInput", "bluejay-validator/src/value/input_coercion.rs")],
  ["CoerceInput::coerce_const_value", "CoerceInput::coerce_value"])

p("C20", "Provided variable values are accepted iff they fit the operation's variables",
  "Analysing an operation with a set of variable values reports a variable that is required (non-null without default) and absent or null, a value that cannot be coerced to its variable's type, and a provided value for which the operation defines no variable, and reports nothing else. The verdict concerns only the operation that is executed, not the others in the document.",
  ["inputs"], "Every operation and JSON object of variable values.",
  "Unit tests use a few operations; presence, null, default and wrapping combine per variable.",
  [OPA + "analyzers/variable_values_are_valid.rs"],
  [("VariableValuesAreValid", OPA + "analyzers/variable_values_are_valid.rs")],
  ["operation::Orchestrator::analyze"])

p("C21", "Analyses look at exactly the operation and fields that would be executed",
  "Analysing a document selects the operation by name, or the only operation when no name is given, and reports an error otherwise. Only fields that are not excluded by skip and include directives, with literal, variable or default-valued conditions and through fragment spreads and inline fragments, count towards depth, complexity and deprecated fields (arguments are inspected wherever they occur), and combining several analyses in one pass gives each the same answer as running it alone.",
  ["inputs", "programs"], "Every document, operation name and JSON object of variable values.",
  "Tests cover single skip/include uses; inclusion is inherited through nesting and fragments and depends on variables and their defaults.",
  [OPA + "orchestrator.rs", "bluejay-validator/src/executable/cache.rs"],
  [("operation lookup and evaluate_selection_inclusion", OPA + "orchestrator.rs")],
  ["operation::Orchestrator::analyze"])

p("C22", "Query depth is the depth of the deepest executed field",
  "The reported depth of an operation is the length of the longest chain of nested selected fields that would be executed, where fragments (named or inline) add nothing by themselves and excluded selections count for nothing.",
  ["inputs"], "Every valid operation and JSON object of variable values.",
  "Unit tests have about ten queries; nesting of fragments, repeated spreads and skipped branches is unbounded.",
  [OPA + "analyzers/query_depth.rs"], [("QueryDepth", OPA + "analyzers/query_depth.rs")],
  ["operation::Orchestrator::<QueryDepth>::analyze"])

p("C23", "Complexity is the maximum cost over possible executions",
  "The reported complexity equals the largest total cost over all choices of concrete types for the fields' abstract types: each response field of each concrete type counts once however often it is repeated, costs multiply along lists according to the cost rules in force (default, or cost directives with connection sizes), excluded selections are free, and no sum or product silently wraps around.",
  ["inputs"], "Every valid operation and JSON object of variable values.",
  "Unit tests check hand-computed examples; the value is a maximum over type choices of a sum over merged selections, i.e. combinatorial in fragments and aliases.",
  [OPA + "analyzers/complexity_cost.rs", OPA + "analyzers/complexity_cost"],
  [("ComplexityScope / TypeMultiplierScopes", OPA + "analyzers/complexity_cost.rs")],
  ["operation::Orchestrator::<ComplexityCost>::analyze"])

p("C24", "Oversized list inputs are reported, and only those",
  "The input-size analysis reports every list longer than the limit that the operation's fields and directives are given as an argument, nested list or input-object field, whether written literally, provided as a variable or taken from a variable's default value, and reports no list that is within the limit. A list inside a list that is itself reported need not be reported again.",
  ["inputs"], "Every operation, limit and JSON object of variable values.",
  "Unit tests have a few arguments; the sources of a list (literal, variable, default) and its nesting combine.",
  [OPA + "analyzers/input_size.rs"], [("InputSize", OPA + "analyzers/input_size.rs")],
  ["operation::Orchestrator::<InputSize>::analyze"])

p("C25", "Deprecated usages are all reported, with their reasons",
  "The deprecation analysis reports each use in the operation of a field, argument, input field or enum value that the schema marks as deprecated, whether the use is in a literal, in a provided variable value or in a variable's default, and reports nothing that is not deprecated. Each report carries the kind of usage, the name of the deprecated element (for an enum value, of the argument, input field or variable it is given to) and the schema's reason. Values given to arguments are inspected in excluded selections too.",
  ["inputs"], "Every schema with deprecations, operation and JSON object of variable values.",
  "Unit tests check one usage of each kind; usages nest in lists, objects and fragments.",
  [OPA + "analyzers/deprecation.rs"], [("Deprecation", OPA + "analyzers/deprecation.rs")],
  ["operation::Orchestrator::<Deprecation>::analyze"])

p("C26", "A visibility-scoped schema shows exactly what its warden permits",
  "Through a visibility-scoped schema, every type, field, argument, input field, enum value, union member, interface, directive and root operation is reachable exactly when the warden permits it and everything it needs (its type, its owner) is visible, so no path leads to a hidden element and no permitted element is lost. The lists of types and directives hold exactly those in use: what the visible roots lead to, and directives that are built in, usable in requests, or applied to something listed. Using the scoped schema for printing or validation gives the same result as using a schema document from which the hidden elements were deleted.",
  ["inputs", "configurations"], "Every schema and every visibility assignment.",
  "The integration test has one schema with one assignment; visibility of an element depends on chains of other elements.",
  ["bluejay-visibility/src"],
  [("lazily filtered wrappers and reachability closure", "bluejay-visibility/src/schema_definition.rs")],
  ["bluejay_visibility::SchemaDefinition accessors", "SchemaDefinitionPrinter", "BuiltinRulesValidator"])

p("C27", "Visibility answers do not depend on what was asked before",
  "For a given schema and warden, the answer to each question about a visibility-scoped schema (a type by name, its fields, members, implementors, the list of types, root operations) is the same whatever questions were asked before it and in whatever order, including on cyclic type graphs and when the underlying cache is shared.",
  ["histories"], "Every sequence of queries on a scoped schema.",
  "The wrappers fill caches lazily while being queried; tests use a single order of access.",
  ["bluejay-visibility/src/cache.rs", "bluejay-visibility/src/schema_definition.rs", "bluejay-visibility/src"],
  [("once_cell / FrozenMap lazy caches", "bluejay-visibility/src/cache.rs")],
  ["bluejay_visibility::SchemaDefinition accessors"],
  state=[("lazy caches", "filtered definitions computed on first access", "bluejay-visibility/src")])

p("C28", "Schema rules: unique enum values and input fields, no infinite inputs",
  "Schema validation reports an enum with two values of the same name, an input object with two fields of the same name, and an input object that can only be instantiated by an infinite value because it refers to itself through a chain of non-null, non-list fields. It reports none of these for any other schema and terminates on every type graph.",
  ["inputs"], "Every schema.",
  "Fixture tests have one schema per rule; cycles quantify over all graphs of input objects with all field wrappings.",
  ["bluejay-validator/src/definition"],
  [("definition rules", "bluejay-validator/src/definition/rules")],
  ["bluejay_validator::definition::BuiltinRulesValidator::validate"])

p("C29", "Ruby-compatibility parsing only ever accepts more",
  "Every document accepted by default parsing is accepted in Ruby-compatibility mode with the same result. The only additional documents accepted are those with raw line breaks inside quoted strings (kept verbatim) or names and dots directly following a number.",
  ["inputs", "configurations"], "Every text.",
  "One unit test per relaxation; a conservative-extension claim quantifies over all texts.",
  [LEX, "bluejay-parser/src/lexer/logos_lexer/string_lexer.rs", "bluejay-parser/src/ast/parse.rs"],
  [("graphql_ruby_compatibility lexer extra", LEX)],
  ["Parse::parse_with_options"])

p("C30", "Validation verdicts are independent of rule composition, order and reuse",
  "Running a set of validation rules together reports the same errors as running each of them alone, and a validation result depends only on the schema and the document: repeating it, reusing its cache for other operations, or having run other validations or analyses before does not change it. Reordering definitions within a document does not change whether it is valid.",
  ["inputs", "histories", "programs"], "Every document, schema, set of rules and sequence of validations.",
  "Tests run fixed sets of rules once per document.",
  [EXD + "orchestrator.rs", EXD + "rule.rs", "bluejay-validator/src/executable/cache.rs", "bluejay-validator/src/utils.rs"],
  [("composed rule visitor", EXD + "orchestrator.rs"), ("rule-local caches", EXD + "rules")],
  ["document::Orchestrator::validate"])

p("C31", "Generated types accept exactly the responses and inputs of the schema",
  "Types generated for a schema and its queries deserialise every response the schema allows for the query into values carrying the same data, and reject responses that violate nullability, list structure or leaf kinds. Generated input types and enums serialise to the names and structure the schema defines, omitting nothing that is required. Every valid schema and query within the documented limitations gives types that compile; invalid ones and those outside the limitations are refused at compile time.",
  ["inputs", "programs"], "Every schema, query, response and input.",
  "Integration tests deserialise one or two responses per query.",
  ["bluejay-typegen-macro/src", "bluejay-typegen/src"],
  [("executable struct/enum builders", "bluejay-typegen-macro/src/executable_definition"), ("definition builders", "bluejay-typegen-macro/src")],
  ["#[bluejay_typegen::typegen] output"])

p("C32", "Custom rules and analyzers are shown every part of a document once",
  "A custom validation rule or analyzer is shown every operation, fragment, selection set of a known type, known field, directive, argument with a definition and variable definition of a document once, each with the definition it refers to. A custom operation analyzer is shown every field the operation reaches, once per occurrence (for every spread of a fragment), visited before and left after its selections, with `included` false exactly for fields that conditions leave out or that lie below one. Rules or analyzers run together are each shown what one alone is.",
  ["inputs", "programs"], "Every document, operation, schema, set of variable values and number of rules or analyzers run together.",
  "Tests exercise the built-in rules and a few analyzers, each of which looks at one kind of element.",
  [EXD + "orchestrator.rs", EXD + "visitor.rs", EXD + "analyzer.rs", EXD + "rule.rs", "bluejay-validator/src/executable/operation/orchestrator.rs", "bluejay-validator/src/executable/operation/visitor.rs", "bluejay-validator/src/executable/operation/analyzer.rs"],
  [("document traversal", EXD + "orchestrator.rs"), ("operation traversal", "bluejay-validator/src/executable/operation/orchestrator.rs"), ("tuples of rules and analyzers", EXD + "visitor.rs")],
  ["document::Visitor", "operation::Visitor", "Orchestrator::analyze"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
