#!/usr/bin/env python3
"""Source of properties.jsonl: run this file to regenerate it."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        p["anchors"]["observe_at"] = observe
    P.append(p)

HS = "hcl/hclsyntax/"

# ---------------------------------------------------------------- native syntax
prop("C01", "Native-syntax parsing never crashes and always returns usable results",
     "For every byte sequence and starting position, lexing it, and parsing it as a configuration file, expression, template or traversal, terminates without panicking and returns a non-nil result (or, for a traversal, at least one error). "
     "Whatever is returned, even together with errors, can be walked, asked for its variables and ranges, decoded with any schema and evaluated in any scope without panicking; every error diagnostic carries a summary and a subject range lying inside the source with line and column numbers that agree with its byte offsets.",
     ["inputs"], "all byte sequences (valid UTF-8 or not), all start positions, all four entry points, all schemas and scopes applied to the result",
     "The parser tests use a few hundred hand-written sources, nearly all well formed; error recovery paths reachable only by particular token sequences are sampled a handful of times.",
     [HS+"public.go", HS+"parser.go", HS+"parser_template.go", HS+"parser_traversal.go", HS+"scan_tokens.go", HS+"peeker.go", HS+"structure.go", HS+"expression.go"],
     [("error recovery after an unexpected token", HS+"parser.go: recover, recoverOver, recoverAfterBodyItem"),
      ("newline-sensitivity stack discipline", HS+"peeker.go: PushIncludeNewlines/PopIncludeNewlines"),
      ("ragel scanner fallbacks for bad bytes", HS+"scan_tokens.rl")],
     ["hclsyntax.ParseConfig", "hclsyntax.ParseExpression", "hclsyntax.ParseTemplate", "hclsyntax.ParseTraversalAbs"])

prop("C02", "Lexer tokens tile the source with exact bytes and positions",
     "For every source text and starting position the token sequence ends with exactly one end-of-file token, tokens appear in order without overlapping, each token's bytes are exactly the source bytes its range covers, and bytes between tokens are only spaces, tabs or a leading byte order mark. "
     "Each token's line, column and byte offset equal those obtained by independently counting newlines and grapheme clusters from the start position.",
     ["inputs"], "all byte sequences, all start positions, the config, expression and template lexing modes",
     "Scanner tests compare fixed token lists for about 150 short ASCII inputs; multi-byte graphemes, CRLF, heredocs, nested templates and invalid UTF-8 in combination are not enumerated.",
     [HS+"token.go", HS+"scan_tokens.rl", HS+"scan_tokens.go", HS+"public.go"],
     [("position accounting", HS+"token.go: emitToken"), ("nested template and heredoc scanning", HS+"scan_tokens.rl")],
     ["hclsyntax.LexConfig", "hclsyntax.LexExpression", "hclsyntax.LexTemplate"])

prop("C03", "The parser accepts exactly the sentences of the native grammar",
     "A native-syntax source is accepted without error diagnostics if and only if it is a sentence of the documented grammar: attributes and blocks one per line (or a one-line block with at most one attribute), well-formed expressions with newlines allowed only inside brackets, known template directives properly closed, no attribute defined twice. "
     "Anything else yields at least one error diagnostic; acceptance does not depend on the placement of comments and insignificant whitespace.",
     ["inputs"], "all token sequences over the native syntax vocabulary: grammatical ones, and ungrammatical ones obtained by inserting, deleting, duplicating, swapping or replacing tokens",
     "Tests list individual accepted and rejected sources; they cannot show that no other malformed source slips through silently or that no valid combination is refused.",
     [HS+"parser.go", HS+"parser_template.go", HS+"peeker.go", HS+"spec.md"],
     [("recursive descent with per-construct newline modes", HS+"parser.go"), ("template directive nesting", HS+"parser_template.go")],
     ["hclsyntax.ParseConfig", "hclsyntax.ParseExpression", "hclsyntax.ParseTemplate"])

prop("C04", "Expressions evaluate to what the language specification says",
     "For every well-formed expression and every scope of wholly known values, evaluation succeeds exactly when the specification gives the expression a value, and then yields that value: operator precedence and associativity, arithmetic, comparison, logic and conditional unification, attribute access, indexing, tuple and object construction, function calls including argument expansion, with spacing, comments and redundant parentheses making no difference. "
     "Otherwise evaluation reports an error rather than panicking.",
     ["programs"], "all expressions of the native grammar over all scopes of known primitive, collection and structural values (including nulls)",
     "Expression tests evaluate about 300 fixed snippets; interactions of operators, conversions, nulls and nesting are an unbounded product.",
     [HS+"expression.go", HS+"expression_ops.go", HS+"parser.go", "hcl/ops.go", "hcl/traversal.go", HS+"spec.md"],
     [("precedence climbing", HS+"parser.go: parseBinaryOps; "+HS+"expression_ops.go: binaryOps"),
      ("conditional type unification", HS+"expression.go: ConditionalExpr.Value"), ("index and attribute rules", "hcl/ops.go")],
     ["hcl.Expression.Value"])

prop("C05", "For-expressions and splats visit every element once, in order",
     "A for expression over any collection or structure yields exactly the elements whose condition holds, in iteration order, with key and value variables bound per element and visible nowhere else; object forms report duplicate keys unless grouping, and grouping collects all values per key in order. "
     "A splat over a sequence yields the per-element result in order, over null yields an empty tuple, and over any other value behaves as over a one-element tuple.",
     ["programs"], "all for expressions (tuple and object forms, with and without key variable, condition, grouping) and both splat forms, nested in each other, over all known collections",
     "Tests cover some twenty fixed for/splat snippets; nested scopes, shadowing, null and empty collections and chained splats combine without bound.",
     [HS+"expression.go", HS+"parser.go", HS+"spec.md"],
     [("per-iteration child scope", HS+"expression.go: ForExpr.Value"), ("splat anonymous symbol", HS+"expression.go: SplatExpr.Value, AnonSymbolExpr")],
     ["hcl.Expression.Value"])

prop("C06", "Templates render exactly as specified",
     "Rendering any template, written as a quoted string, a heredoc, an indented heredoc or a standalone template, yields exactly the concatenation of its literal text (after escape processing), the string conversions of its interpolations and the results of its if and for directives, with whitespace strip markers and indented-heredoc indentation removal applied as specified. "
     "A template consisting of a single interpolation yields the unconverted value, and interpolating null or a non-string-convertible value is an error.",
     ["programs"], "all nestings of literals, interpolations, if/else and for directives and strip markers in all four template notations, over all known scopes",
     "Template tests are about sixty fixed strings; adjacency of strip markers, newlines, escapes and nesting is combinatorial.",
     [HS+"parser_template.go", HS+"expression_template.go", HS+"parser.go", HS+"spec.md"],
     [("strip markers", HS+"parser_template.go: parseTemplateParts"), ("flush heredoc", HS+"parser_template.go: flushHeredocTemplateParts"), ("directive nesting", HS+"parser_template.go: templateParser")],
     ["hclsyntax.ParseTemplate", "hcl.Expression.Value"])

prop("C07", "String and number literals denote exactly the written value",
     "Every string value has its escaped quoted form decode back to exactly that string (after Unicode normalization), each documented escape denotes its documented character, and any other backslash escape is rejected. "
     "Every decimal number literal, including fractions and exponents, denotes its exact decimal value to the supported precision in both native and JSON syntax, and block labels written quoted or as identifiers denote the same text.",
     ["inputs"], "all Unicode strings, all escape spellings of each character, all decimal literals",
     "Literal tests try a few dozen strings and numbers; the domain is all of Unicode and all decimals.",
     [HS+"parser.go", HS+"scan_string_lit.rl", "hcl/json/parser.go", "hcl/json/scanner.go"],
     [("escape decoding", HS+"parser.go: decodeStringLit"), ("number parsing", HS+"parser.go: numberLitValue; hcl/json/parser.go: parseNumber")],
     ["hcl.Expression.Value", "hcl.Block.Labels"])

prop("C08", "Unknown inputs never produce a wrong or premature answer",
     "If evaluating an expression with some inputs unknown succeeds, then for every known replacement of matching type for which evaluation also succeeds, the known result agrees with every part of the earlier result that was reported known, and its type conforms to the type reported earlier. "
     "If evaluation with some known replacement succeeds then evaluation with the unknown in its place does not report an error.",
     ["programs"], "all expressions, templates and traversals, all ways of replacing known (sub)values in scope by unknown values of the same or of dynamic type",
     "Tests fix a handful of unknown-value cases per operator; the property relates two evaluations for every expression and every replacement.",
     [HS+"expression.go", HS+"expression_template.go", "hcl/ops.go", "hcl/traversal.go"],
     [("short-circuit returns of unknown results", HS+"expression.go"), ("unknown handling in index/attr", "hcl/ops.go: Index, GetAttr")],
     ["hcl.Expression.Value"])

prop("C09", "Reported variables are exactly the free references of an expression",
     "The variables reported for any native, template or JSON expression are exactly its references to names not bound by an enclosing for, each with its full static attribute/index path; references inside nested expressions, object keys, templates, function arguments and collection operands are all included. "
     "Consequently evaluating in a scope containing only the reported roots gives the same outcome as evaluating in any larger scope.",
     ["programs"], "all expressions in native, template and JSON form, all scopes",
     "Variables tests list twenty expressions; scoping through nested for, splat and template constructs is unbounded.",
     [HS+"variables.go", HS+"expression_vars.go", HS+"walk.go", "hcl/json/structure.go"],
     [("child-scope tracking walk", HS+"variables.go: variablesWalker"), ("generated Variables methods", HS+"expression_vars.go")],
     ["hcl.Expression.Variables"])

prop("C10", "Source ranges delimit the construct they describe",
     "For every successfully parsed file, the ranges of attributes, names, block headers, labels, braces and expressions lie within the source and within their parent's range, siblings do not overlap, and the text sliced by a name, label or brace range is exactly that token. "
     "The text sliced by the range of an attribute's expression, or of any operand of it, parses on its own to an expression that evaluates identically.",
     ["programs"], "all valid configuration files with arbitrary layout, Unicode text, comments and nesting, and all sub-expressions in them",
     "Tests assert ranges of a few dozen fixed nodes; correctness for every node of every program is a universally quantified relation.",
     [HS+"structure.go", HS+"expression.go", HS+"parser.go", "hcl/json/parser.go", "hcl/json/structure.go"],
     [("range assembly in the parser", HS+"parser.go"), ("JSON node ranges", "hcl/json/parser.go")],
     ["hcl.Attribute.Range", "hcl.Expression.Range", "hcl.Block.DefRange"])

prop("C11", "Evaluation and decoding are pure, repeatable and safe to run in parallel",
     "Parsing, evaluating, decoding, formatting or packing never modifies the source buffer, schema, scope or values it is given, and repeating an operation on the same inputs gives the same result and the same error count. "
     "Parsed bodies and expressions may be evaluated and decoded by several goroutines at once without data races, with each getting the result of a sequential run.",
     ["programs", "schedules"], "all configurations and expressions, all sets of concurrent read operations on one parsed file",
     "No test runs two operations on the same tree, let alone concurrently; accidental aliasing or lazily mutated state shows only under such histories.",
     [HS+"structure.go", HS+"expression.go", "hcl/json/structure.go", "hcldec/spec.go", "hcl/eval_context.go"],
     [("immutable AST; hidden-name sets copied on partial decode", HS+"structure.go: PartialContent"), ("child contexts", "hcl/eval_context.go: NewChild")],
     ["all read operations"])

# ---------------------------------------------------------------- info model
prop("C12", "Schema application returns exactly the matching items and flags the rest",
     "Applying a schema to a native or JSON body returns exactly the attributes and blocks the schema names, blocks in source order with their labels, each with its own contents. "
     "An error is reported exactly when something is wrong: an item the schema does not name (unless decoding partially), a missing required attribute, a wrong label count, or an attribute used as a block or vice versa in native syntax; nothing valid is dropped because of an unrelated error.",
     ["inputs", "configurations"], "all bodies crossed with all schemas",
     "Body tests pair about forty fixed bodies with fixed schemas.",
     [HS+"structure.go", "hcl/json/structure.go", "hcl/spec.md"],
     [("native schema match", HS+"structure.go: Content/PartialContent"), ("JSON schema match", "hcl/json/structure.go: Content/PartialContent/unpackBlock")],
     ["hcl.Body.Content", "hcl.Body.PartialContent", "hcl.Body.JustAttributes"])

prop("C13", "Partial decoding partitions a body: nothing lost, nothing seen twice",
     "For every body implementation (native, JSON, merged, packed, dynamic-block-expanded, transformed, mock), decoding with a sequence of partial schemas, each applied to the remainder of the previous one, yields the same items as decoding once with the combined schema. "
     "No item is returned by two steps, the final full decode of the remainder flags exactly the items no step named, and partial decoding does not change the original body.",
     ["histories", "configurations"], "all bodies, all ordered partitions of schemas into partial-decode steps, all body implementations",
     "Tests exercise one or two-step partial decodes on fixed bodies for some implementations only.",
     [HS+"structure.go", "hcl/json/structure.go", "hcl/merged.go", "hclpack/structure.go", "ext/dynblock/expand_body.go", "ext/transform/transform.go", "hcltest/mock.go"],
     [("hidden attribute and block sets", HS+"structure.go, hcl/json/structure.go, ext/dynblock/expand_body.go"), ("leftover bodies", "hcl/merged.go, hclpack/structure.go")],
     ["hcl.Body.PartialContent"])

prop("C14", "Merged bodies behave as the union of their parts",
     "Decoding a merge of any number of bodies, mixing syntaxes and nested merges, returns all parts' blocks in part order and all their attributes, reporting an error for an attribute defined in more than one part and for a required attribute defined in none. "
     "Requirements are judged against the union, not against individual parts, and errors in one part do not hide items of another.",
     ["configurations", "inputs"], "all lists of bodies (native, JSON, empty, nested merges) and all schemas",
     "merged_test.go uses mock bodies and about ten fixed combinations.",
     ["hcl/merged.go"], [("merge with required flags relaxed per part", "hcl/merged.go: mergedContent"), ("duplicate detection", "hcl/merged.go: JustAttributes, mergedContent")],
     ["hcl.MergeFiles", "hcl.MergeBodies"])

prop("C15", "JSON and native spellings of a configuration are equivalent",
     "A configuration written in native syntax and the same configuration written in the JSON syntax, in any of the permitted block encodings (object, array of objects, nested label objects), decode to the same attributes, blocks, labels and values under the same schema or decoding specification. "
     "The same holds for reported variables.",
     ["configurations"], "all configurations expressible in both syntaxes, all permitted JSON encodings of them, all schemas naming their items",
     "Only the specification suite's dozen fixed file pairs relate the two syntaxes.",
     ["hcl/json/structure.go", HS+"structure.go", "hcl/json/spec.md"],
     [("block unpacking by label depth", "hcl/json/structure.go: unpackBlock"), ("string-as-template evaluation", "hcl/json/structure.go: expression.Value")],
     ["hcl.Body.Content", "hcldec.Decode"])

# ---------------------------------------------------------------- JSON
prop("C16", "The JSON parser accepts exactly RFC JSON and never crashes",
     "For every byte sequence, parsing as JSON terminates without panicking and returns a non-nil file whose body can be decoded without panicking. "
     "It reports no error if and only if the bytes are one syntactically valid JSON value that is an object or an array (array elements that are not objects being reported on decoding), and every node's range slices to exactly the JSON text of that node. Every error has a subject range lying inside the source, on the line that its byte offset is on.",
     ["inputs"], "all byte sequences: valid JSON documents with arbitrary layout and Unicode, and arbitrary mutations of them",
     "JSON parser tests use about a hundred fixed inputs.",
     ["hcl/json/scanner.go", "hcl/json/parser.go", "hcl/json/peeker.go", "hcl/json/public.go"],
     [("tokenizer", "hcl/json/scanner.go: scan"), ("recovery", "hcl/json/parser.go: parseObject/parseArray recover")],
     ["json.Parse"])

prop("C17", "JSON values map to expression values as documented",
     "Evaluating any JSON property value yields the documented value: numbers at full decimal precision, booleans, null, arrays as tuples, objects as objects, and strings rendered as templates when a scope is given but taken literally when none is. "
     "Object keys are templates under the same rule, duplicate keys after evaluation are an error, and unknown or null keys are handled without panicking.",
     ["inputs"], "all JSON values, with and without a scope",
     "JSON expression tests cover about thirty values.",
     ["hcl/json/structure.go", "hcl/json/parser.go"], [("value conversion", "hcl/json/structure.go: expression.Value")],
     ["hcl.Expression.Value"])

# ---------------------------------------------------------------- hclwrite
prop("C18", "Loading a file for editing and writing it back changes only spacing",
     "Every syntactically valid native file can be loaded for editing, and writing it back unmodified yields the same sequence of tokens, comments and newlines included, differing at most in the spaces between tokens. "
     "The loaded tree exposes the same attributes, blocks and labels as the parser reports; files with syntax errors are refused with errors, not panics, and a failing writer's error is returned with the number of bytes it took.",
     ["inputs"], "all valid native files with arbitrary layout, comments, heredocs and expressions; and arbitrary invalid ones",
     "round_trip_test.go checks five small files.",
     ["hclwrite/parser.go", "hclwrite/ast.go", "hclwrite/ast_body.go", "hclwrite/native_node_sorter.go"],
     [("token partitioning by AST ranges", "hclwrite/parser.go: partition*, parse*")],
     ["hclwrite.ParseConfig", "hclwrite.File.Bytes"])

prop("C19", "Edits change exactly what was asked and nothing else",
     "After any sequence of edits to a native file (set an attribute to a value or to a reference, append blocks, attributes and newlines, clear, build new nested bodies, rename variable prefixes), the written output parses, contains exactly the attributes, blocks and values that the edit history implies, and every attribute, block and comment not edited is still present, in its original order, with its original tokens. "
     "Reading back through the editing API agrees with the written output.",
     ["histories"], "all initial files, all sequences of edit operations",
     "ast_body_test.go performs one edit per fixed input.",
     ["hclwrite/ast_body.go", "hclwrite/ast_attribute.go", "hclwrite/ast_block.go", "hclwrite/ast_expression.go", "hclwrite/node.go", "hclwrite/generate.go"],
     [("linked node list with item set", "hclwrite/node.go; hclwrite/ast_body.go")],
     ["hclwrite.Body", "hclwrite.File.Bytes"])

prop("C20", "Generated source for a value or reference evaluates back to it",
     "Source tokens generated for any wholly known value parse as an expression that evaluates to an equal value (collections appearing as the corresponding tuple or object), whatever characters its strings and keys contain. "
     "Source tokens generated for any reference parse back to the same reference.",
     ["inputs"], "all known values of primitive, collection and structural types; all absolute references with attribute and index steps",
     "generate_test.go covers about twenty values and no references.",
     ["hclwrite/generate.go"], [("string escaping", "hclwrite/generate.go: escapeQuotedStringLit"), ("traversal tokens", "hclwrite/generate.go: appendTokensForTraversal")],
     ["hclwrite.TokensForValue", "hclwrite.TokensForTraversal"])

prop("C21", "Formatting is idempotent and never changes meaning",
     "Formatting any syntactically valid native source changes only spaces between tokens: the formatted text lexes to the same tokens with the same bytes, parses without errors and evaluates to the same values. "
     "Formatting already formatted valid source changes nothing, and sources that differ only in the amount of space between tokens have the same formatted form, in which lines that begin an item or end a block are indented by two spaces per enclosing block and the equals signs of single-line arguments on adjacent lines are aligned. Formatting arbitrary bytes never panics or drops non-space content.",
     ["inputs"], "all byte sequences; all valid files for the meaning-preservation half",
     "format_test.go holds about sixty before/after pairs.",
     ["hclwrite/format.go", "hclwrite/tokens.go", "hclwrite/public.go"],
     [("three-pass formatter", "hclwrite/format.go: formatIndent, formatSpaces, formatCells")],
     ["hclwrite.Format"])

# ---------------------------------------------------------------- hcldec / gohcl
prop("C22", "Decoded values always conform to the specification's implied type",
     "Decoding any body with any decoding specification returns a value whose type conforms to the type implied by the specification alone, whether or not errors are reported; with errors, missing parts are null or unknown values of the right type or of no type yet. "
     "The implied type, schema and child block types are computed without a body and agree with what decoding accepts.",
     ["configurations", "inputs"], "all specifications crossed with all bodies, valid for it or not",
     "Decode tests use about forty fixed spec/config pairs and check conformance for none of the erroneous ones beyond those.",
     ["hcldec/spec.go", "hcldec/public.go", "hcldec/decode.go", "hcldec/schema.go"],
     [("impliedType per spec kind", "hcldec/spec.go"), ("conversion of attribute values", "hcldec/spec.go: AttrSpec.decode")],
     ["hcldec.Decode", "hcldec.PartialDecode", "hcldec.ImpliedType"])

prop("C23", "Specification decoding yields exactly what the configuration says",
     "For every specification and every configuration valid for it, decoding reports no errors and returns the value built from the configuration by the specification's documented rules: attribute conversion and defaults, nested blocks as object, list, tuple, set, map or object-of-labels, label values, literal and derived values. "
     "Violations of required attributes, block counts, label uniqueness, single-block rules and attribute types are each reported as errors, and partial decoding leaves exactly the unconsumed items.",
     ["configurations", "inputs"], "all specifications and all configurations generated for them, with and without injected violations",
     "Decode tests use about forty fixed spec/config pairs.",
     ["hcldec/spec.go", "hcldec/decode.go", "hcldec/block_labels.go"],
     [("per-kind decode", "hcldec/spec.go"), ("label threading", "hcldec/block_labels.go")],
     ["hcldec.Decode"])

prop("C24", "Variables requested by a decoding specification are complete and minimal",
     "The references reported for a body under a decoding specification are exactly those occurring in expressions that decoding with that specification evaluates, in the body and all its nested blocks, so that decoding in a scope holding only those roots gives the same result as in any larger scope. "
     "The source range reported for a specification item points at the attribute, block or label that supplied it.",
     ["configurations", "inputs"], "all specifications and bodies",
     "variables_test.go has ten fixed cases.",
     ["hcldec/variables.go", "hcldec/spec.go", "hcldec/public.go"],
     [("variablesNeeded per spec kind", "hcldec/spec.go"), ("nested visit", "hcldec/variables.go")],
     ["hcldec.Variables", "hcldec.SourceRange"])

prop("C25", "Struct decoding fills every tagged field from the right source",
     "Decoding a body into a tagged Go struct of any supported shape stores every attribute, label, nested block (struct, pointer, slice) and remainder into the field its tag names, leaves absent optional fields at their zero values, and reports an error for every missing required item, extraneous item or inconvertible value. "
     "The schema implied by the struct type names exactly its attributes and blocks.",
     ["configurations", "inputs"], "all struct types built from supported field kinds, all bodies generated for them with and without violations",
     "decode_test.go has about thirty fixed struct types.",
     ["gohcl/decode.go", "gohcl/schema.go"], [("field tag mapping", "gohcl/schema.go: getFieldTags"), ("body to struct", "gohcl/decode.go: decodeBodyToStruct")],
     ["gohcl.DecodeBody", "gohcl.ImpliedBodySchema"])

prop("C26", "Encoding a Go struct and decoding it back returns an equal struct",
     "For every struct value of a supported shape, encoding it into a native body or block and decoding the written source into a fresh struct of the same type yields an equal struct, and the written source is valid, already in canonical format and lists the items in the order of the fields. "
     "Encoding into a body that already has content replaces that content.",
     ["inputs", "configurations"], "all supported struct types and values, including unusual strings, negative and fractional numbers, nested slices and maps",
     "encode_test.go is a single example.",
     ["gohcl/encode.go", "gohcl/decode.go", "hclwrite/generate.go"], [("encoding", "gohcl/encode.go: populateBody")],
     ["gohcl.EncodeIntoBody", "gohcl.EncodeAsBlock"])

# ---------------------------------------------------------------- hclpack
prop("C27", "Packing and JSON transport preserve content, values and positions",
     "Packing any valid native file, marshalling it to JSON and unmarshalling it yields a body that decodes under every schema to the same attributes, blocks and labels, evaluates to the same values, reports the same variables, and carries the same filename, line, column and byte positions as the original file. "
     "Files from several sources merged into one packed body keep each item's own positions.",
     ["inputs", "configurations"], "all valid native files (any size, layout and gap between items) and all schemas",
     "hclpack tests pack three small files.",
     ["hclpack/pack_native.go", "hclpack/positions_packed.go", "hclpack/json_marshal.go", "hclpack/structure.go", "hclpack/expression.go"],
     [("delta-encoded position table", "hclpack/positions_packed.go"), ("range indexes", "hclpack/json_marshal.go")],
     ["hclpack.PackNativeFile", "hclpack.Body.MarshalJSON", "hclpack.Body.UnmarshalJSON"])

prop("C28", "Unpacking untrusted packed data fails cleanly",
     "Unmarshalling any JSON or arbitrary bytes into a packed body either succeeds or returns an error, never panics, and a body obtained this way can be decoded and evaluated with any schema and scope without panicking.",
     ["inputs"], "all byte sequences and all structural and position-table corruptions of marshalled bodies",
     "No test unmarshals malformed packed data.",
     ["hclpack/json_marshal.go", "hclpack/positions_packed.go", "hclpack/structure.go", "hclpack/expression.go"],
     [("bounds checks on position indexes", "hclpack/positions_packed.go: Unpack")],
     ["hclpack.Body.UnmarshalJSON"])

# ---------------------------------------------------------------- extensions
prop("C29", "Dynamic blocks decode as if written out by hand",
     "Decoding a body containing dynamic blocks, through any sequence of schemas or a decoding specification, gives exactly the result of decoding the same body with each dynamic block replaced in place by one literal block per element of its collection, with iterator key and value substituted, labels evaluated and nesting, custom iterator names and inherited iterators honoured. "
     "An unknown collection yields one block whose attributes are unknown, and an unusable collection or label is reported as an error.",
     ["configurations", "inputs"], "all bodies with dynamic blocks nested arbitrarily, all collections (list, tuple, set, map, object, unknown), all schemas and specs",
     "expand_body_test.go uses one mock body with three dynamic blocks.",
     ["ext/dynblock/expand_body.go", "ext/dynblock/expand_spec.go", "ext/dynblock/iteration.go", "ext/dynblock/expr_wrap.go", "ext/dynblock/unknown_body.go"],
     [("lazy expansion", "ext/dynblock/expand_body.go: expandBlocks"), ("iteration scope", "ext/dynblock/iteration.go")],
     ["dynblock.Expand"])

prop("C30", "Variable detection sees through dynamic blocks",
     "For any body containing dynamic blocks, the references reported before expansion are enough to expand it, and the references reported for a decoding specification are enough to decode it completely; iterator symbols are never reported as external references, and references in parts of the body that the specification does not decode are not reported.",
     ["configurations", "inputs"], "all bodies with nested dynamic blocks, all decoding specifications",
     "variables_test.go has two fixed bodies.",
     ["ext/dynblock/variables.go", "ext/dynblock/variables_hcldec.go"], [("walk with iterator scoping", "ext/dynblock/variables.go: WalkVariablesNode.Visit")],
     ["dynblock.VariablesHCLDec", "dynblock.ExpandVariablesHCLDec"])

prop("C31", "Body transforms reach every nested block and keep their diagnostics",
     "A deep transform is applied exactly once to the root body and to every descendant block's body obtained by any sequence of full or partial decodes. "
     "Diagnostics attached to a body are reported when it is decoded, once per decode, and a chain of transforms applies in order.",
     ["configurations", "histories"], "all bodies, all transforms, all decode sequences",
     "transform_test.go decodes one mock body with a full schema.",
     ["ext/transform/transform.go", "ext/transform/transformer.go", "ext/transform/error.go"], [("deep wrapper", "ext/transform/transform.go: deepWrapper")],
     ["transform.Deep", "transform.Shallow", "transform.BodyWithDiagnostics"])

prop("C32", "Include blocks splice in the referenced bodies and report failures",
     "A body processed for includes decodes as the merge of its own items and the bodies its include blocks resolve to, at the root or with a deep transform at every level of nesting, whether resolved from a map or from files relative to a base directory. "
     "An include that is malformed, or whose target is missing or invalid, is reported as an error on decode and never panics or is silently ignored.",
     ["configurations", "fault_sequences"], "all include graphs without cycles, all resolver outcomes including missing, unreadable, invalid and nil bodies",
     "transformer_test.go has one fixed include example with a map resolver.",
     ["ext/include/transformer.go", "ext/include/file_resolver.go", "ext/include/map_resolver.go"], [("transform on include blocks", "ext/include/transformer.go")],
     ["include.Transformer", "include.FileResolver", "include.MapResolver"])

prop("C33", "Type expressions and their printed form are inverse",
     "Printing any type constraint built from primitives, collections, tuples, objects and the any placeholder and parsing the result as a type expression returns the same type. "
     "Type expressions are accepted exactly as documented in native and JSON syntax, with the any placeholder refused where a concrete type is required, and every malformed one yields an error.",
     ["inputs"], "all types of any nesting, all near-miss type expressions",
     "Tests list about thirty fixed type expressions.",
     ["ext/typeexpr/get_type.go", "ext/typeexpr/public.go"], [("type parser", "ext/typeexpr/get_type.go"), ("type printer", "ext/typeexpr/public.go: TypeString")],
     ["typeexpr.Type", "typeexpr.TypeConstraint", "typeexpr.TypeString"])

prop("C34", "User-defined functions compute their result expression over their arguments",
     "Calling a function defined in configuration gives the value of its result expression with parameters bound to the arguments, the variadic parameter to a tuple of the rest, and other names resolved in the context supplied at definition; calling it with too few or too many arguments is an error. "
     "Malformed definitions are reported as errors and never become functions, and the rest of the body is returned intact.",
     ["programs", "configurations"], "all sets of function definitions, all argument lists",
     "decode_test.go has about a dozen fixed functions.",
     ["ext/userfunc/decode.go", "ext/userfunc/public.go"], [("function construction", "ext/userfunc/decode.go: decodeUserFunctions")],
     ["userfunc.DecodeUserFunctions"])

# ---------------------------------------------------------------- tooling API
prop("C35", "Positional queries find the construct at the cursor",
     "For every native file and every byte position in it, asking for the blocks, the innermost and outermost block, the attribute and the outermost expression at that position returns exactly those constructs whose written extent contains the position, and nothing when none does. "
     "Context descriptions for editors name the enclosing block headers, for native and JSON files alike, without panicking at any offset.",
     ["inputs"], "all files, all positions in and outside them",
     "structure_at_pos and navigation tests query about twenty positions in fixed files.",
     [HS+"structure_at_pos.go", HS+"navigation.go", "hcl/structure_at_pos.go", "hcl/json/navigation.go", "hcled/navigation.go"],
     [("position search", HS+"structure_at_pos.go")], ["hcl.File.BlocksAtPos", "hcled.ContextString"])

prop("C36", "Ranges and position scanning obey interval arithmetic",
     "For all ranges over a source, cover, overlap, overlap test, containment, partition and slicing agree with interval arithmetic on byte offsets and never panic. "
     "Scanning a whole buffer or a fragment with any split function visits each token once with the range obtained by independently counting newlines and grapheme clusters.",
     ["inputs"], "all pairs of ranges, all buffers, start positions and split functions",
     "pos_test.go and pos_scanner_test.go use a dozen fixed cases each.",
     ["hcl/pos.go", "hcl/pos_scanner.go"], [("interval operations", "hcl/pos.go"), ("range scanner", "hcl/pos_scanner.go: Scan")],
     ["hcl.Range", "hcl.RangeScanner"])

prop("C37", "Diagnostics render completely and never crash",
     "Writing any diagnostics, with any or no subject, context, expression and evaluation context, and any width, against any set of source files, never panics; the output contains each summary, the severity, the file and line of each subject, and every source line the subject overlaps when the source is available. "
     "Accumulating diagnostics preserves every one in order, and errors are detected exactly when one of error severity is present.",
     ["inputs"], "all diagnostics, sources and widths",
     "diagnostic_text_test.go renders four fixed diagnostics.",
     ["hcl/diagnostic_text.go", "hcl/diagnostic.go"], [("source snippet extraction", "hcl/diagnostic_text.go: WriteDiagnostic")],
     ["hcl.NewDiagnosticTextWriter", "hcl.Diagnostics"])

prop("C38", "Static views of expressions agree with their evaluation",
     "Whenever an expression can be viewed statically as a list, a map, a function call, a reference or a keyword, in native or JSON syntax, the parts returned are exactly its written elements, evaluating them yields the corresponding parts of evaluating the whole, and evaluating a reference through its traversal equals evaluating the expression. "
     "Splitting and rejoining a traversal, and parsing it from text, give back the same traversal, and applying its steps equals evaluating it.",
     ["programs"], "all expressions, all traversals, all scopes",
     "Static analysis tests use a handful of fixed expressions.",
     ["hcl/expr_list.go", "hcl/expr_map.go", "hcl/expr_call.go", "hcl/traversal_for_expr.go", "hcl/traversal.go", HS+"expression.go", "hcl/json/structure.go"],
     [("static analysis interfaces", "hcl/expr_*.go"), ("traversal application", "hcl/traversal.go")],
     ["hcl.ExprList", "hcl.ExprMap", "hcl.ExprCall", "hcl.AbsTraversalForExpr"])

prop("C39", "Nested scopes resolve names to the innermost definition",
     "In any chain of nested evaluation scopes, a variable or function name resolves to the innermost scope that defines it and is reported undefined exactly when no scope defines it; scopes whose variables or functions are absent are transparent. "
     "Deriving a child scope or adding names to it never changes what its ancestors or siblings resolve.",
     ["configurations", "histories"], "all trees of scopes and all lookups in them",
     "No test builds scope chains deeper than two.",
     ["hcl/eval_context.go", "hcl/traversal.go", HS+"expression.go"], [("parent chain walk", "hcl/traversal.go: TraverseAbs; "+HS+"expression.go: FunctionCallExpr.Value")],
     ["hcl.EvalContext", "hcl.Traversal.TraverseAbs"])

prop("C40", "The file-loading parser caches by name and survives load failures",
     "For any history of loading native and JSON files from memory or disk, including missing and invalid ones, each name is parsed once and later loads return the same file object, and the recorded files and sources contain exactly the successfully read files with their exact bytes. "
     "No history makes any of these operations panic.",
     ["histories", "fault_sequences"], "all sequences of loads, re-loads and failures",
     "hclparse has no tests.",
     ["hclparse/parser.go"], [("file cache", "hclparse/parser.go")], ["hclparse.Parser"])

# ---------------------------------------------------------------- commands
prop("C41", "The hcldec command prints the decoded value or fails with diagnostics",
     "For any specification file and input files, the command exits successfully and prints exactly the JSON form of the value the described specification decodes from the merged inputs with the given variables, at full number precision, or exits with failure and diagnostics; it never crashes. "
     "Every specification construct in its reference documentation is accepted and behaves as documented, and removing nulls removes nothing but null-valued properties.",
     ["configurations", "inputs"], "all specification files built from the documented constructs, well formed or not, and all inputs and option combinations",
     "Only the specification suite runs the command, on about fifteen fixed spec files.",
     ["cmd/hcldec/main.go", "cmd/hcldec/spec.go", "cmd/hcldec/type_expr.go", "cmd/hcldec/vars.go", "cmd/hcldec/spec_funcs.go", "cmd/hcldec/spec-format.md"],
     [("specification loader", "cmd/hcldec/spec.go"), ("null stripping", "cmd/hcldec/main.go: stripJSONNullProperties")],
     ["hcldec command stdout and exit status"])

prop("C42", "The hclfmt command rewrites files safely",
     "Formatting files in place replaces each file's content with exactly its formatted form and touches no other file, formatting standard input prints exactly the formatted form, and a second run over valid files changes nothing. "
     "With syntax checking on, a file with syntax errors is left byte-for-byte unchanged and the command reports failure.",
     ["inputs", "configurations"], "all files, valid or not, and all combinations of the command's options",
     "hclfmt has no tests.",
     ["cmd/hclfmt/main.go"], [("per-file processing", "cmd/hclfmt/main.go: processFile")], ["hclfmt command: file contents, stdout and exit status"])

# ---------------------------------------------------------------- support
prop("C43", "A specification sent to another process decodes the same",
     "Encoding any decoding specification for transport between processes and decoding it again gives a specification with the same implied type, schema and child block types, which decodes every body to the same value with the same errors and reports the same variables. "
     "Every kind of specification can be sent on its own or nested in any other.",
     ["configurations", "inputs"], "all trees of specifications and all bodies, valid for them or not",
     "hcldec/gob_test.go sends one fixed object specification and only compares it structurally.",
     ["hcldec/gob.go", "hcldec/spec.go"], [("type registration for encoding/gob", "hcldec/gob.go")],
     ["encoding/gob of hcldec.Spec", "hcldec.Decode", "hcldec.ImpliedType"])

prop("C44", "Walking a syntax tree visits every node exactly once",
     "Walking or visiting the syntax tree of any source, valid or not, calls the visitor exactly once for every node of the tree, with enter and exit calls properly nested and children visited inside their parent. "
     "The diagnostics returned by the visitor are all returned to the caller, in order.",
     ["programs"], "all syntax trees, including those of sources with errors",
     "walk_test.go walks four fixed expressions.",
     [HS+"walk.go", HS+"expression.go", HS+"expression_template.go", HS+"structure.go"],
     [("child enumeration per node type", HS+"*.go: walkChildNodes"), ("visitor", HS+"walk.go")],
     ["hclsyntax.VisitAll", "hclsyntax.Walk"])

prop("C45", "Mock bodies and expressions behave like real ones",
     "A mock body built from attributes and blocks decodes under any schema, fully, partially or as attributes only, to the same items and the same errors as the configuration file that spells them out. "
     "Mock expressions evaluate, report variables and offer static views like the expression they stand for.",
     ["inputs", "configurations"], "all mock bodies and expressions, schemas and scopes",
     "hcltest/mock_test.go uses a dozen fixed bodies and no nested ones.",
     ["hcltest/mock.go"], [("mock body decoding", "hcltest/mock.go: mockBody.PartialContent"), ("mock expressions", "hcltest/mock.go")],
     ["hcltest.MockBody", "hcltest.MockExprLiteral", "hcltest.MockExprList", "hcltest.MockExprTraversal"])

prop("C46", "The specification suite passes exactly if all its expectations hold",
     "Running the test suite command over a directory runs every test below it against the given decoder, and reports success exactly if for every test and each of its input files the result, its type, the references and the diagnostics with their severities and places are the expected ones. "
     "A malformed test, a missing specification, a decoder that fails or an answer that cannot be read is reported as a failure and does not keep the remaining tests from being run.",
     ["inputs", "configurations"], "all directories of tests and all decoder behaviours",
     "hclspecsuite has no tests of its own and is only ever run over a suite in which everything passes, so a harness that accepts anything would go unnoticed.",
     ["cmd/hclspecsuite/runner.go", "cmd/hclspecsuite/test_file.go", "cmd/hclspecsuite/traversals.go", "cmd/hclspecsuite/diagnostics.go", "cmd/hclspecsuite/main.go"],
     [("comparison of results", "cmd/hclspecsuite/runner.go: runTestInput"), ("comparison of references", "cmd/hclspecsuite/traversals.go"), ("test files", "cmd/hclspecsuite/test_file.go")],
     ["hclspecsuite command: exit status and output"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
