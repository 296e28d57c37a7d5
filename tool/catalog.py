def P(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                        "mechanism": [dict(name=a, where=b) for a, b in mechanism], "observe_at": list(observe), "hook_needed": None}}


TT = "crates/tombi-toml-text/src/lib.rs"
LX = "crates/tombi-lexer/src/"
PA = "crates/tombi-parser/src/"
CATALOG = [
    P("C01", "Lexing loses nothing and places every token exactly",
      "For every text, the tokens are non-empty and contiguous from byte 0 to the end, followed by one EOF token that is empty and sits at the end: concatenating the texts of the tokens gives the text back. Each token's span is its byte interval, and its range starts and ends at the line (number of LFs before) and column (characters since the last LF) of those bytes. Each token's text is what its kind says: punctuation, line breaks (LF or CRLF), blanks, comments up to the line end, true/false, numbers, dates, times, bare keys; a string token begins with its delimiter and ends at the first unescaped closing one (with at most two extra quotes for multi-line strings). A text that the TOML grammar makes a token becomes that token. The errors are exactly the invalid tokens, in order, and the line ending is CRLF exactly if some line break is. Lexing never panics and always ends.",
      ["inputs"], "every text (below 2 GiB)",
      "Lexer tests list token streams of a few dozen snippets; all later phases (tree, formatter, diagnostics, edits) index the text with these spans, for any text a user types.",
      [LX + "lib.rs", LX + "cursor.rs", LX + "lexed.rs", LX + "token.rs", LX + "error.rs", "crates/tombi-text/src/"],
      [("cursor offsets and positions advance per character", LX + "cursor.rs: bump, pop_span_range"), ("one scanner per token class", LX + "lib.rs: advance_token and callees"), ("token list, joint bits, errors", LX + "lexed.rs, lib.rs: lex")],
      ["tombi_lexer::lex"], [("token_start_offset / current_offset", "byte interval of the token being scanned", LX + "cursor.rs")]),
    P("C02", "Parsing loses nothing",
      "For every text, valid TOML or not, the syntax tree that parsing returns has exactly that text: the texts of its tokens, in order, concatenate to the source, byte for byte. There is one root node and every other node and token lies inside it, so each character of the source belongs to exactly one token of the tree.",
      ["inputs"], "every text (below 2 GiB), well-formed or not",
      "Parser tests compare trees of some hundred snippets; formatter and editor rewrite files from this tree, so any token lost on any malformed input silently deletes user text.",
      [PA + "parser.rs", PA + "marker.rs", PA + "event.rs", PA + "output.rs", PA + "builder.rs", PA + "lib.rs", PA + "parse/", "crates/tombi-rg-tree/src/green/builder.rs", "crates/tombi-syntax/src/builder.rs"],
      [("every bump copies the blanks before the token", PA + "parser.rs: do_bump, bump_float_key"), ("events are encoded and decoded", PA + "output.rs"), ("trivia is attached between events", PA + "builder.rs"), ("green tree", "crates/tombi-rg-tree/src/green/builder.rs")],
      ["tombi_parser::parse(source).syntax_node().text()"], [("pos / tokens", "input consumed so far / tokens already placed", PA + "parser.rs")]),
    P("C03", "Parsing always ends, without panic, in bounded depth",
      "For every text, parsing terminates and returns a tree and an error list: no input makes it loop forever, panic, index out of range or overflow an integer. Nesting is bounded: a value nested deeper than the recursion limit (128) is skipped with an error and everything up to its closing bracket is kept in the tree, so no document exhausts the stack. Every grammar function either consumes input or leaves its caller in a position that does.",
      ["inputs"], "every text (below 2 GiB), well-formed or not",
      "Error recovery is exercised by a few broken snippets; a loop that makes no progress, or an unbounded recursion, hangs or kills the editor on one particular keystroke.",
      [PA + "parser.rs", PA + "parse/", PA + "support/comment.rs", PA + "event.rs", PA + "builder.rs"],
      [("recursion limit", PA + "parse/value.rs: parse_nested, skip_too_deep_value"), ("error recovery", PA + "parse.rs: invalid_line; parse/root.rs: unknwon_line; parse/value.rs: parse_invalid_value"), ("loops over the token list", PA + "parse/")],
      ["tombi_parser::parse"], [("depth", "array / inline table nesting", PA + "parser.rs")]),
    P("C04", "String literals decode exactly as the TOML version prescribes",
      "For each TOML version, decoding a basic, multi-line basic, literal or multi-line literal string token yields exactly the characters the TOML grammar assigns to it, and is an error exactly when that grammar rejects the body. That covers every escape (with \\e and \\xHH from v1.1 only), surrogates and code points above U+10FFFF, control characters, CR not followed by LF, the one newline trimmed after a multi-line opening delimiter, and line-ending backslashes (multi-line basic strings only). Decoding never panics on a delimited token.",
      ["inputs", "configurations"], "every delimited string token, every TOML version",
      "The unit tests decode a few dozen fixed strings; escapes can be combined, truncated and placed at every position, with any code point.",
      [TT], [("escape state machine over a peekable char iterator", TT + ": parse_basic_string"), ("literal body scan", TT + ": parse_literal_string"), ("delimiter stripping", TT + ": try_from_*_string")],
      ["try_from_basic_string, try_from_multi_line_basic_string, try_from_literal_string, try_from_multi_line_literal_string"]),
    P("C05", "Encoding a value as a TOML string and decoding it gives it back",
      "For every Unicode string and every TOML version, what the basic, literal, multi-line basic and multi-line literal string writers produce is a well-formed TOML string whose decoded value is the original string. A key written by the key writer is either a bare key consisting only of A-Z a-z 0-9 _ - (kept verbatim), a quoted string that decodes to the key, or an unchanged ${...} placeholder.",
      ["inputs", "configurations"], "every Unicode string, every TOML version",
      "The writers are tested on six keys; quotes, backslashes, control characters and newlines can occur at any position of a value.",
      [TT], [("escaping", TT + ": to_basic_string"), ("literal writers", TT + ": to_literal_string, to_multi_line_*"), ("bare key test", TT + ": to_key_string, is_display_bare_key, try_from_bare_key")],
      ["to_basic_string, to_literal_string, to_multi_line_basic_string, to_multi_line_literal_string, to_key_string"]),
    P("C06", "Number and boolean literals have exactly the value TOML gives them",
      "For every text in value position: if the TOML grammar makes it an integer (decimal, hexadecimal, octal or binary, with underscores and sign), the document holds that integer with that kind, and exactly that value if it fits in 64 bits, else an error is reported and no integer; if the grammar makes it a float, the document holds the double nearest to the text without underscores (with inf and nan, signed); true and false are the booleans. A text that looks like a number but is none (leading zero, misplaced underscore, missing digits, sign on a prefixed integer) is reported as an error. Nothing panics.",
      ["inputs", "configurations"], "every text in value position, every TOML version",
      "Tests list a handful of literals per kind; the boundaries of i64, the case of the exponent, and underscores in every position combine without end, and a wrong value goes unnoticed.",
      [LX + "lib.rs", "crates/tombi-ast/src/support/literal/integer.rs", "crates/tombi-ast/src/support/literal/float.rs", "crates/tombi-ast/src/support/literal/boolean.rs", "crates/tombi-document-tree/src/value/integer.rs", "crates/tombi-document-tree/src/value/float.rs", "crates/tombi-document-tree/src/value/boolean.rs"],
      [("literal to value", "crates/tombi-ast/src/support/literal/: try_from_*"), ("token to document value", "crates/tombi-document-tree/src/value/: into_document_tree_and_errors"), ("number token patterns", LX + "lib.rs: REGEX_*")],
      ["tombi_parser::parse(..).into_root_and_errors().0.into_document_tree_and_errors(version)"]),
    P("C07", "Date and time literals mean exactly what is written, and are written back as they mean",
      "For every text in value position that the TOML grammar makes an offset date-time, local date-time, local date or local time, the document holds a value of that type with exactly the year, month, day, hour, minute, second, nanosecond (digits beyond the ninth are dropped) and offset that are written; dates that do not exist in the Gregorian calendar, out-of-range times and offsets, and a missing seconds part in TOML v1.0.0 are errors and give no value. Writing any such value (Display) gives a text that reads back as the same value. Converting a chrono date or time keeps every field and the offset. Nothing panics.",
      ["inputs", "configurations"], "every text in value position, every TOML version; every value",
      "Tests read a few dates; leap-year rules, fraction lengths, offset signs and the version gate on seconds combine without end.",
      ["crates/tombi-date-time/src/private/date_time.rs", "crates/tombi-date-time/src/private/date.rs", "crates/tombi-date-time/src/private/time.rs", "crates/tombi-date-time/src/offset.rs", "crates/tombi-date-time/src/offset_date_time.rs", "crates/tombi-date-time/src/local_date_time.rs", "crates/tombi-date-time/src/local_date.rs", "crates/tombi-date-time/src/local_time.rs", "crates/tombi-document-tree/src/support/chrono.rs", "crates/tombi-document-tree/src/value/offset_date_time.rs", "crates/tombi-document-tree/src/value/local_date_time.rs", "crates/tombi-document-tree/src/value/local_date.rs", "crates/tombi-document-tree/src/value/local_time.rs"],
      [("one reader for all four kinds", "crates/tombi-date-time/src/private/date_time.rs: DateTime::from_str"), ("optional seconds", "crates/tombi-document-tree/src/support/chrono.rs: make_datetime_str, try_new_local_time"), ("token to document value", "crates/tombi-document-tree/src/value/: into_document_tree_and_errors")],
      ["OffsetDateTime::from_str, Display", "tombi_parser::parse(..).into_root_and_errors().0.into_document_tree_and_errors(version)"]),
    P("C08", "Version sort is a total order that counts",
      "For all texts: version_sort compares chunk by chunk, where a chunk is a run of digits, a version operator (===, >=, <=, ==, !=, ~=, ~>, >, <, =, ^, ~; the longest that fits), a single - or _, or the text up to the next of those. Runs of digits compare by their numeric value, whatever their length; operators come before - and _ (which are alike), these before everything else; other chunks compare as text; a text that is a proper beginning comes first; among otherwise equal texts the one with more leading zeros at the first difference comes first. The order is reflexive, antisymmetric and transitive, so sorting with it never depends on the initial order nor panics, and two texts are equal only if they differ at most in - and _.",
      ["inputs"], "every pair and every triple of texts",
      "Sorted lists in tests show single outcomes; an intransitive comparison or one that ignores a chunk only shows on particular pairs, and Rust's sort may panic on it.",
      ["crates/tombi-version-sort/src/lib.rs"],
      [("splitting into chunks", "crates/tombi-version-sort/src/lib.rs: VersionChunkIter"), ("comparison", "crates/tombi-version-sort/src/lib.rs: version_sort")],
      ["tombi_version_sort::version_sort"]),
    P("C09", "Formatting never changes what a document says",
      "For all parsed documents and all format rules: what the formatter writes for a node is exactly that node's tokens in the order of the tree, each key and literal either unchanged or re-quoted to the same value (or, for date-times, with another permitted delimiter), every comment of the node once and in order with its text unchanged up to white space, and otherwise only white space, line breaks and the commas, brackets, braces, dots and equals signs the tree has; a comment is always followed by a line break, and statements, comments and headers stand on lines of their own. Formatting never panics, at any nesting depth, width or indentation.",
      ["inputs"], "every document tree, every combination of format rules, every nesting depth",
      "Fixtures show chosen documents under nearly always default rules; a comment lost in one branch, or a quote changed to one that the content contains, needs a particular combination of position and rule.",
      ["crates/tombi-formatter/src"],
      [("quotes", "crates/tombi-formatter/src/format/value/string.rs"), ("comments", "crates/tombi-formatter/src/format/comment.rs"), ("arrays and inline tables", "crates/tombi-formatter/src/format/value/{array,inline_table}.rs"), ("tables and root", "crates/tombi-formatter/src/format/{root,table,array_of_table,key_value}.rs"), ("writer", "crates/tombi-formatter/src/formatter.rs")],
      ["tombi_formatter::Formatter::format"]),
    P("C10", "The document tree is exactly what the document says",
      "For all documents, in every TOML version: building the document tree reports no error exactly when every key, value and comment can be read and the key-values and sections fit together (no value, array, inline table or [table] is defined twice or extended from elsewhere; dotted keys and headers only extend what may be extended). Then the tree is the union of the key-values and sections in the order of the document: each table has each key once, every key and value of every section is under its path, the elements of an array of tables are in order, and a [section] under [[array]] headers belongs to the last element. Errors never leave a table with duplicate keys.",
      ["inputs"], "every syntax tree, any number and order of sections, any nesting",
      "Tests hold a few dozen documents; whether a definition is rejected or merged depends on the kinds of all earlier definitions of the same path, and on which arrays of tables were opened in between.",
      ["crates/tombi-document-tree/src", "crates/tombi-ast/src/support/node.rs"],
      [("merging", "crates/tombi-document-tree/src/value/{table,array}.rs"), ("conversion", "crates/tombi-document-tree/src/{root,key,value}.rs"), ("enclosing arrays of tables", "crates/tombi-ast/src/support/node.rs")],
      ["tombi_document_tree::IntoDocumentTreeAndErrors", "Table::merge"]),
    P("C11", "Schema validation decides what the schema says",
      "For all JSON Schemas (the keywords tombi reads) and all TOML values: validating a value against a resolved schema fails an assertion exactly when JSON Schema says the value does not hold. allOf needs every branch, anyOf at least one, oneOf exactly one, not the opposite; if/then/else picks its branch by the condition; applicators next to other keywords and next to each other all count, also when a branch only carries lint messages such as a deprecation. Numbers keep to minimum, maximum, their exclusive forms, multipleOf, enum and const; strings to lengths (in graphemes), pattern and format; arrays to prefixItems, items, contains with its counts, unevaluatedItems, item counts and uniqueness; tables to properties, patternProperties, additionalProperties, unevaluatedProperties, propertyNames, required, dependencies and counts, and in strict mode an undeclared key without additionalProperties is an error only next to patternProperties and a warning otherwise. Validation never panics.",
      ["inputs"], "every schema and value, any number and nesting of applicators, items and keys",
      "The verdict of a schema is a composition of branch verdicts; tests hold the combinations of a suite (each keyword alone), while a lost or invented failure shows only where one verdict feeds another (contains, not, a branch with a warning).",
      ["crates/tombi-validator/src", "crates/tombi-schema-store/src/schema"],
      [("combinators", "crates/tombi-validator/src/validate/{all_of,any_of,one_of,not_schema,if_then_else}.rs"), ("values", "crates/tombi-validator/src/validate/{integer,float,string,boolean,array,table}.rs"), ("results, projection, mismatches", "crates/tombi-validator/src/{validate,invalid}.rs"), ("numeric bounds", "crates/tombi-schema-store/src/schema/integer_schema.rs")],
      ["tombi_validator::validate", "tombi_linter::Linter::lint"]),
    P("C12", "A place in the text is the same place to the parser and to the editor",
      "For all texts, positions and position encodings (UTF-8, UTF-16, UTF-32): the line index has exactly the lines of the text (ended by LF or CRLF), and the position the core computes for any prefix (line and number of grapheme clusters since the line began) is the line index's. Told to the editor it becomes the number of that encoding's units in those clusters; coming back it is the same position; a column inside a cluster goes to the cluster's start and one past the end to the end of the line. Order is kept. Adding a text to a position, subtracting positions, and the union, containment and intersection of ranges and spans are those of the places they stand for.",
      ["inputs"], "every text and place: any mix of line ends, combining marks, emoji sequences, wide characters; any column, in or out of range",
      "Every diagnostic, hover, rename and edit goes through these few functions; an off-by-one shows only on a line with a particular cluster, CRLF or past-the-end column, which the handful of tests do not hold.",
      ["crates/tombi-text/src"],
      [("line index", "crates/tombi-text/src/features/lsp/line_index.rs"), ("conversions", "crates/tombi-text/src/features/lsp/{from_lsp,into_lsp,encoding_kind}.rs"), ("algebra", "crates/tombi-text/src/{offset,span,position,relative_position,range}.rs")],
      ["tombi_text::{LineIndex, FromLsp, IntoLsp, Position, Range, Span}"]),
    P("C13", "What the editor is told about a document is true of that document",
      "For all documents, formatted texts and position encodings: the edits answered to a formatting request, applied by the editor in its own units, turn the document into exactly the formatted text. The semantic tokens, whose distances the editor adds up, lie exactly on the document's tokens, in order, with their true lengths; a comment directive is told as the three parts of its comment, the middle one being the directive word, whatever blank characters stand in front of it. After opening, changing or formatting a document, its line index, syntax tree, document tree and errors are those of its present text, never of an older one.",
      ["inputs", "histories"], "every pair of old and new text, every sequence of tokens and comments, any history of changes to a document",
      "Editing corrupts the user's file if one boundary is off in one encoding; the tests hold a few ASCII texts.",
      ["crates/tombi-lsp/src", "crates/tombi-ast/src/impls/comment.rs"],
      [("formatting edit", "crates/tombi-lsp/src/handler/formatting.rs"), ("semantic tokens", "crates/tombi-lsp/src/semantic_tokens/builder.rs"), ("document state", "crates/tombi-lsp/src/document.rs"), ("places of comment directives", "crates/tombi-ast/src/impls/comment.rs")],
      ["tombi_lsp::handler::{handle_formatting, handle_semantic_tokens_full, handle_did_open, handle_did_change}"]),
    P("C14", "A document is read without a syntax error exactly when it is TOML",
      "For all texts whose tokens are each valid, in the version with the freest layout (TOML 1.1): parsing reports no syntax error exactly when the tokens follow TOML's grammar. That is: `keys = value` on lines of their own, `[keys]` and `[[keys]]` headers alone on a line with their double brackets touching, arrays and inline tables of items separated by single commas with an optional one behind the last, nested no deeper than 128; comments and line breaks, in any arrangement, anywhere between the items, commas and brackets of an array or inline table and between lines, and a comment at the end of any line. Keys, `=` and the start of the value share a line. Two leniences are meant (the formatter repairs them): a comma between two items may be missing, and a comma may stand behind a key-value of the document itself.",
      ["inputs"], "every sequence of tokens, every arrangement of comments and blank lines, every nesting",
      "A comment in one odd place that makes a valid file unreadable, or an invalid file passed without a word, is what every other guarantee rests on not happening; the tests hold a few arrangements.",
      ["crates/tombi-parser/src/parse", "crates/tombi-parser/src/support"],
      [("document", "crates/tombi-parser/src/parse/root.rs"), ("values", "crates/tombi-parser/src/parse/value.rs"), ("groups with commas", "crates/tombi-parser/src/parse/value_with_comma_group.rs"), ("comment look-ahead", "crates/tombi-parser/src/support/comment.rs"), ("dangling comments", "crates/tombi-parser/src/parse/dangling_comment_group.rs")],
      ["tombi_parser::parse"]),
]
NOT_APPLICABLE = {}
