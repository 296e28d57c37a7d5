TEXT = "crates/tombi-toml-text/src/lib.rs"
VERUS = "contracts on the sliced real functions, discharged by Verus/Z3; executable contract run against the crates to find failing inputs"
LX = "crates/tombi-lexer/src/"
PA = "crates/tombi-parser/src/"
PROPS = {
    "C01": dict(level="proof", technique=VERUS, verus=["lexer:C01"],
        note="Every function of the lexer (cursor, all scanners, advance_token, the tokenize step, Lexed, lex) is verified for all texts below 2 GiB: tiling, offsets, line/column, the shape of each token's text, where string tokens end, error list, EOF, line ending. Numbers, dates and times are proved to be whole texts of their pattern that end at a separator; the language of each pattern is uninterpreted in the proof and compared with an independent grammar by the bounded run.",
        witness=[dict(bin="lexer", features="lexer", dict=[LX + "lib.rs", LX + "cursor.rs", LX + "lexed.rs"])],
        assumptions=["texts shorter than 2 GiB", "the regex engine decides the language of the number and date patterns (uninterpreted); that a match spans the whole text follows from the anchors, which are checked on the source", "std::str::Chars and RelativePosition::of on the empty string behave as specified"]),
    "C02": dict(level="proof", technique=VERUS, verus=["parser:UNIT", "lexer:C01"],
        note="Every function from parse() to the green tree builder is verified for all texts below 2 GiB: parser primitives, marker, every grammar function, event processing, the packed output encoding and its decoding, the tree-building loop and GreenNodeBuilder. The composed postcondition is text(parse(source)) == source. That lex establishes what the parser requires is lemma_parser_input in the lexer unit. Trusted: NodeCache/GreenNode (a node's text is the concatenation of its children's), SyntaxKind's transmute from its own discriminant.",
        witness=[dict(bin="parser", features="parser", dict=[PA + "parse/value.rs", PA + "parse/key.rs", PA + "parse/root.rs", LX + "lib.rs"])],
        assumptions=["texts shorter than 2 GiB; event and error lists below 2^31 entries", "NodeCache::token/node build green elements whose text is what they are given", "closures are turned into functions of their own (the sink of the tree-building loop, Output::iter's map), trait calls <X as Parse>::parse are specialised"]),
    "C03": dict(level="proof", technique=VERUS, verus=["parser:UNIT"],
        note="Termination of every loop (the number of remaining tokens decreases) and of the recursion (MAX_RECURSION_DEPTH - depth decreases), absence of panics, of out-of-range indexing and of arithmetic overflow, and that the events form one tree, for all token lists the lexer can produce.",
        witness=[dict(bin="parser", features="parser", dict=[PA + "parse/value.rs", PA + "parse/key.rs", PA + "parse/root.rs", LX + "lib.rs"])],
        assumptions=["texts shorter than 2 GiB; event and error lists below 2^31 entries", "the stack holds MAX_RECURSION_DEPTH (128) nested values"]),
    "C04": dict(level="proof", technique=VERUS, verus=["toml_text:C04"],
        note="Every obligation of every function on the decode path is discharged for all strings and all TOML versions against a spec function that restates the TOML string grammar. Trusted: std str/char shims (slicing, chars().peekable(), from_str_radix on hex digits, char::from_u32).",
        witness=[dict(bin="strings", features="strings", dict=[TEXT])],
        assumptions=["callers pass string tokens that carry their own delimiters (the lexer contract C01 establishes this for lexed text)"]),
    "C05": dict(level="proof", technique=VERUS, verus=["toml_text:C05"],
        note="Round trip proved for all strings and versions by composing the writers' postconditions with the decoder's spec. Trusted: the std shims, format!(\"\\\\u{:04x}\").",
        witness=[dict(bin="strings", features="strings", dict=[TEXT])],
        assumptions=[]),
    "C06": dict(level="proof", technique=VERUS, verus=["numbers:UNIT"],
        note="try_from_binary/octal/decimal/hexadecimal/float/boolean and the document tree's construction of Integer, Float and Boolean values from syntax nodes, for all token texts: exact integer value or an out-of-range error, the double that std reads from the text without underscores, underscores only between digits, no leading zero in a float's integer part. That rejected texts do not become number tokens is the lexer's patterns: compared with an independent grammar by the bounded run.",
        witness=[dict(bin="numbers", features="numbers", dict=["crates/tombi-ast/src/support/literal/float.rs", "crates/tombi-ast/src/support/literal/integer.rs", LX + "lib.rs"])],
        assumptions=["i64::from_str_radix, str::parse::<i64>, str::parse::<f64> (part of its grammar; correctly rounded), str::replace and split as documented", "a syntax node's token text is what the parser put there (C02); tokens of the integer kinds match the lexer's patterns"]),
    "C07": dict(level="proof", technique=VERUS, verus=["dates:UNIT"],
        note="FromStr and Display of DateTime, LocalDate, LocalTime, LocalDateTime and OffsetDateTime and of their parts, the round trip as a lemma over both contracts, the optional-seconds rewriting, the document tree's construction of the four date-time values from syntax nodes, and the conversions from chrono, for all texts and all in-range values. write!/format! calls are expanded mechanically into the pieces they print. That rejected texts do not become date-time tokens is the lexer's patterns: compared with an independent grammar by the bounded run.",
        witness=[dict(bin="dates", features="dates", dict=["crates/tombi-date-time/src/private/date_time.rs", "crates/tombi-document-tree/src/support/chrono.rs"])],
        assumptions=["str::chars/bytes/trim_end_matches and {:02}-style padding as documented", "date-time tokens are ASCII (the lexer's patterns)", "chrono's accessors return values in their documented ranges; years 0 to 9999"]),
    "C08": dict(level="proof", technique=VERUS, verus=["version_sort:UNIT"],
        note="The chunk iterator (all four functions), the digit comparison and version_sort are verified for all pairs of texts against a specification of the order; lemmas prove of that specification that it is reflexive, antisymmetric and transitive and that only texts equal up to - and _ compare equal. zip_longest is unfolded into its steps, the loop over the operator list is unrolled.",
        witness=[dict(bin="version_sort", features="version_sort", dict=["crates/tombi-version-sort/src/lib.rs"])],
        assumptions=["str's Ord, CharIndices, parse::<usize> and slicing as documented", "itertools' zip_longest pairs two iterators until both are done"]),
    "C09": dict(level="proof", technique=VERUS, verus=["formatter:UNIT"],
        note="Every function of the formatter that writes text (literals, keys, key-values, arrays, inline tables, tables, arrays of tables, root, all comment positions, alignment, line-width decisions) is verified against one contract: what it appends to the buffer is a layout of its node's tokens and comments, in order. The asynchronous driver Formatter::format, the tree editor that runs before it and the AST accessors are outside the proof; the bounded witness run covers them on random documents and rules.",
        witness=[dict(bin="formatter", features="formatter", dict=["crates/tombi-formatter/src", "crates/tombi-config/src/format.rs"])],
        assumptions=["the AST accessors return the node's tokens and comments (C02/C03 decide the tree they read)", "should_be_multiline is true of every array or inline table that holds a comment", "the rewritten text of a tombi: directive comment is a comment", "texts shorter than 2^64 bytes"]),
    "C10": dict(level="proof", technique=VERUS, verus=["tree:UNIT"],
        note="Table::merge, merge_same_key, insert, Array::merge, every conversion from syntax to document tree (keys, key-values, values, arrays, inline tables, tables, arrays of tables, root) and the search for enclosing arrays of tables are verified: no errors are reported exactly when the document's sections and key-values fit together, and then the tree is their union in order. Lemmas over these contracts: everything each section says is in the tree, and a path that two sections define is rejected. IndexMap (as a list with distinct keys), the AST accessors, the conversion of single literals and the reading of comment directives are assumed; the bounded witness run compares whole documents with an independent reader.",
        witness=[dict(bin="tree", features="tree", dict=["crates/tombi-document-tree/src"])],
        assumptions=["IndexMap behaves as a list of entries with distinct keys", "the AST accessors return the node's parts in order; prev_siblings_nodes returns the earlier arrays of tables, the closest first", "the conversion of a single literal (C04, C06 and C07 decide the parsing)", "comment directives do not change keys or values (they are carried separately)"]),
    "C11": dict(level="proof", technique=VERUS, verus=["schema:UNIT", "formats:UNIT"],
        note="Every function that turns keywords into a verdict is verified: the result type (Invalid::{new,combine,prepend_diagnostics,from}, merge_validation_results), not, if/then/else, allOf, anyOf, oneOf, adjacent applicators, all scalar validators and their dispatch, projection to the type of the value and the type-mismatch rules, validate_array (prefixItems, items, additionalItems, contains, unevaluatedItems, const, enum, minItems, maxItems, uniqueItems) and validate_table (properties, patternProperties, additionalProperties, unevaluatedProperties, strict mode, required, dependencies, dependentRequired, dependentSchemas, propertyNames, const, enum, min/maxProperties), and the string formats tombi decides itself (date, time, date-time, their local forms and json-pointer, against RFC 3339 and RFC 6901, for all texts). The verdict (an assertion failed) equals the meaning of the schema by JSON Schema; messages and levels are dropped. Assumed: a recursive validate() call returns the verdict of its own value and schema, resolution of references, regular expressions, the formats left to libraries (email, hostname, addresses, uri, uuid, regex), float arithmetic, conversion to JSON, and which properties the neighbouring applicators looked at. The bounded witness run compares the linter with an independent JSON Schema evaluator on random schemas.",
        witness=[dict(bin="schema", features="schema", dict=["crates/tombi-validator/src"])],
        assumptions=["a nested validate() call decides its own value and schema (induction on the schema; cycles are cut by the visit guard)", "resolve_schema_item / resolve_and_collect_schemas give the referenced schema", "Regex, the string formats left to libraries, str::{bytes().position,as_bytes,is_ascii,parse::<u32>,strip_prefix} as documented, grapheme counts, f64 comparison and multiples, conversion of TOML values to JSON and their equality", "the set of properties looked at by neighbouring applicators (collect_evaluated_properties_*)", "the get_subschema override at the head of array/table validation", "async functions run to completion like ordinary calls; RwLock reads see the value"]),
    "C12": dict(level="proof", technique=VERUS, verus=["positions:UNIT"],
        note="Every function between a place in the text and a place on the editor's screen is verified for all texts, places and encodings: LineIndex::{from_arc,len,is_empty,line_text}, EncodingKind::measure, take_column_text, all four FromLsp conversions, Offset::of, RelativePosition::of, Position::{add_text,sub,add,add_assign,cmp,eq}, Range::{new,at,contains,intersects,add,cmp} and Span::{contains*,intersect,cover*,checked_*,ordering}. Theorems over the contracts: the position of every prefix is its line and cluster count (core and line index agree), there and back is the identity on every line, order is kept, and the character told means the cut after that many clusters. Grapheme segmentation itself is an assumed function with three axioms (clusters concatenate to the text, cut locally, and a line feed ends a cluster); the bounded run tests the axioms and everything else against an independent reading.",
        witness=[dict(bin="positions", features="positions", dict=["crates/tombi-text/src"])],
        assumptions=["unicode-segmentation: clusters are non-empty and concatenate to the text; cutting at a cluster boundary does not change the clusters on either side of a line; a line feed is a cluster of its own or with the CR in front", "str::{len,chars,char_indices,encode_utf16} and slices by byte offset", "texts of at most 2^32-1 bytes (the code's own debug assertion)", "std Vec"]),
    "C13": dict(level="proof", technique=VERUS, verus=["edits:UNIT"],
        note="Verified: compute_text_edits and position_at_offset (the edit list, read the way an editor reads it in its own units, turns the old text into exactly the new one; no edit only if they are equal), SemanticTokensBuilder::{new,add_token,add_comment_directive,build}, delta_line_and_start and token_length (the distances add up to the true place of every token, a directive is told as three parts that meet), the places of directives inside comments (get_{document_schema,tombi_document,tombi_value}_directive), and DocumentSource::{new,set_text} (line index, tree, errors are those of the text itself). On top of the contracts of C12, which the unit proves again. The formatter, parser and tree builder are functions of the text here; the walk over the syntax tree that feeds the builder, and the handlers, are bounded only: the run opens, formats and changes random documents through the language server's own handlers in the three encodings and compares with the document's own tokens and an independent application of the edits.",
        witness=[dict(bin="edits", features="edits", dict=["crates/tombi-lsp/src/semantic_tokens", "crates/tombi-lsp/src/document.rs", "crates/tombi-ast/src/impls/comment.rs"])],
        assumptions=["the assumptions of C12", "std iterator chains (zip, take_while, rev, map, sum, fold) and str::{trim_start,trim_end,strip_prefix,starts_with}", "the order in which the syntax tree is walked (each token starts where the last one did or later): bounded only", "length of a token over several lines (token_length's second half): bounded only", "tombi_parser::parse and into_document_tree are functions of the text", "a comment's text starts with # and its range is that of its text"]),
    "C14": dict(level="proof", technique=VERUS, verus=["grammar:UNIT", "parser:UNIT"],
        note="Every grammar function (keys, key-value, value, array, inline table, comma, comma groups, key-value group, table, array of tables, root, dangling comments, the comment look-ahead) is verified for all token lists, with its depth, against a grammar written over token kinds: each function stops exactly where the grammar says its item ends, or an error is told and there is no reading the rest. Composed: Root::parse tells no error exactly when g_doc(tokens). The Parser's primitives enter by the contracts that the parser unit proves of their bodies (C02/C03), where they are stated over the same remaining kinds and adjacency. A bounded run compares parse() with an independent recogniser.",
        witness=[dict(bin="grammar", features="parser", dict=[PA + "parse/value.rs", PA + "parse/key.rs", PA + "parse/root.rs", LX + "lib.rs"])],
        assumptions=["a comment token is followed by a line break or the end (a lexer fact, compared by C01's bounded run)", "Parser::error tells an error and no other primitive does; errors told are the errors returned (bounded run; the parser unit proves that each error event points into the error list)", "termination is C03's: these contracts are partial correctness", "closures and trait calls <X as Parse>::parse are specialised, as in C02"]),
}
