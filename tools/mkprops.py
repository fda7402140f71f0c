#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to review and edit)."""
import json, os
MC="crates/math-core/src/"; MR="crates/mathml-renderer/src/"; CLI="crates/math-core-cli/src/"
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mechanism],observe_at=observe,hook_needed=hook)))

prop("C01","Source text embedded in markup is escaped exactly and reversibly",
 "Whenever the LaTeX source or an error message is embedded in markup (the annotation element, and the code text and title attribute of an error rendered as HTML), decoding the character references of the embedded text gives back exactly that text. In element content no raw `<` or `>` and in the quoted attribute no raw double quote remains, and every `&` starts one of the references produced by escaping. Characters that need no escaping are copied unchanged and in order.",
 ["inputs"],"every string (any length, any Unicode content) used as LaTeX source, with annotation on, and every error message rendered as HTML",
 "The tests escape a dozen fixed strings; that nothing is lost, duplicated or left raw has to hold for every string and every position of a special character.",
 [MC+"html_utils.rs",MC+"error.rs",MC+"lib.rs"],
 [("escape_html_content","html_utils.rs"),("escape_double_quoted_html_attribute","html_utils.rs"),("LatexError::to_html","error.rs"),("emit (annotation)","lib.rs")],
 ["ConvertResult.mathml with annotation = true","LatexError::to_html"])

prop("C02","Successful conversions produce well-formed MathML",
 "For every LaTeX input that converts without error, the output is one well-formed XML element named `math`: tags are properly nested and closed, attributes are quoted and not repeated within a tag, and text is escaped, so no character of the input can act as markup. Elements with a fixed number of children (fractions, roots, sub/superscripts, over/underscripts) have exactly that number. This holds for every configuration (pretty printing, annotation, namespace, unknown commands, macros); it assumes that the configured class names and id prefix are themselves attribute-safe and that the input has no control characters XML forbids.",
 ["inputs","configurations"],"every input without XML-forbidden control characters, every display mode and every configuration",
 "Snapshot tests fix the output of about two hundred inputs; balance, escaping and child counts have to hold for every tree the parser can build.",
 [MR+"ast.rs",MR+"escaping.rs",MR+"table.rs",MR+"attribute.rs",MC+"lib.rs",MC+"parser.rs"],
 [("Emitter::emit, emit_table, emit_stretchy_op","ast.rs"),("EscapeHtml","escaping.rs"),("ColumnGenerator","table.rs"),("OpAttrs::write_to","attribute.rs")],
 ["ConvertResult.mathml"])

prop("C03","Symbols are written as exactly the characters they stand for",
 "A symbol written to the output consists of its base character, then its variation selector if it has one, then its negation overlay if it has one, with the XML-special characters escaped and nothing else added or lost. Negating a symbol gives the precomposed negated character exactly when Unicode's canonical composition of that symbol with U+0338 is one; a symbol that is already negated stays as it is, and otherwise (also when it has a variation selector) U+0338 is added after the symbol. A packed symbol always unpacks to the character, selector and overlay it was built from.",
 ["inputs"],"every Unicode scalar value, each variation selector, with and without negation; every operator symbol",
 "Tests look at a handful of symbols; packing and escaping must be right for all 1.1 million scalar values in every combination.",
 [MR+"super_char.rs",MR+"symbol.rs",MR+"ast.rs",MC+"parser.rs"],
 [("SuperChar packing and writing","super_char.rs"),("MathMLOperator / OrdLike / Rel constructors","symbol.rs"),("\\not handling","parser.rs")],
 ["text of <mo>, <mi>, <mn>","SuperChar API"])

prop("C04","Math alphabets map every character to its Unicode counterpart",
 "Applying a math alphabet (bold, italic, bold italic, script, fraktur, double-struck, sans-serif, monospace and their bold variants) to a Latin or Greek letter or a digit for which the alphabet has a Unicode counterpart gives exactly that counterpart: a character of that alphabet whose compatibility decomposition is the original character. Characters with no counterpart stay unchanged, the result is always a valid character, and the two script alphabets are told apart by their variation selectors.",
 ["inputs"],"every Unicode scalar value (except the unassigned U+03A2) under every alphabet, upright or not",
 "Twenty-four character/alphabet pairs are tested; the offsets are added unchecked, so one wrong range end yields a wrong or invalid character for inputs no test uses.",
 [MR+"attribute.rs",MC+"parser.rs"],
 [("TextTransform::transform_char / add_offset","attribute.rs"),("merge_and_transform_letters","parser.rs")],
 ["text of <mi>/<mn> under \\mathbf, \\mathbb, ...","TextTransform::transform_char"])

prop("C05","Dimensions are accepted, rejected and converted exactly",
 "A braced dimension is accepted exactly when it is an optional minus sign, decimal digits with at most one decimal point and at least one digit, optional blanks, and a two-letter unit among pt, mm, cm, in, ex, em, mu, sp in any letter case (a bare one after a \\kern-like command may also have a plus sign, a decimal comma and blanks between sign and digits); anything else, including digits that exceed 64 bits, is rejected and never silently misread. An accepted dimension has the value of its decimal numeral to single precision, with its sign, converted by the fixed factor of its unit. Math-unit spacing commands only accept math units, and other spacing commands and \\raisebox only other units.",
 ["inputs"],"every string used as a dimension in \\hspace-like commands, \\kern-like commands, \\genfrac and \\raisebox",
 "The tests use about thirty numerals; overflow, misplaced signs or points, multi-byte tails and every digit count need all strings.",
 [MC+"atof.rs",MC+"specifications.rs",MC+"parser.rs",MR+"length.rs"],
 [("limited_float_parse","atof.rs"),("parse_length_specification, LatexUnit","specifications.rs"),("parse_kern_or_skip","parser.rs"),("Length::push_to_string","length.rs")],
 ["width/height attributes of <mspace> and <mfrac>","ExpectedLength / InvalidUnit errors"])

prop("C06","Array column specifications are parsed exactly",
 "A column specification is accepted exactly when it consists of `l`, `c`, `r`, `|`, `:` and ASCII blanks and has at least one content column; any other byte anywhere rejects it. The content columns come out in order with left, centred and right alignment, the first line character after a content column becomes its right border, a leading one becomes the left border of the array, and each further adjacent line character becomes a line-only column of its own; `|` is solid and `:` dashed. Nothing is dropped, duplicated or reordered.",
 ["inputs"],"every column specification string of every length",
 "A few specifications up to five characters are tested; the grammar and the merging of line characters must hold for all strings.",
 [MC+"specifications.rs",MR+"table.rs"],
 [("parse_column_specification","specifications.rs"),("ArraySpec","table.rs")],
 ["cell styles of array environments","ExpectedColSpec error"])

prop("C07","The command-line tool replaces exactly the delimited math",
 "Given a document and two pairs of delimiters, everything outside the delimited math is copied byte for byte, and the text between each opening delimiter and the next closing delimiter (after decoding references) is converted once, in document order, in the mode of its opening delimiter. The delimiter used is always the earliest one in the text, the block delimiter winning a tie, however far away it is; with escape handling on, delimiters directly preceded by a backslash do not count. A missing closing delimiter, a closing delimiter of the other kind, and an opening delimiter inside math are reported as errors at the position where they occur.",
 ["inputs","configurations"],"every document, every pair of non-empty delimiter pairs, escape handling on or off",
 "Tests use short documents; the search works in growing windows, so mistakes only show with delimiters that straddle a window boundary kilobytes into a document.",
 [CLI+"replace.rs",CLI+"main.rs"],
 [("Replacer::replace","replace.rs"),("Replacer::find_next_delimiter","replace.rs"),("Replacer::find_delimiter_position","replace.rs")],
 ["output file of the command-line tool","ConversionError"])

prop("C08","Character references in delimited math are decoded once and exactly",
 "In the text between delimiters, reading left to right, each stretch from an `&` to the first `;` after it is replaced by the character it names when it is exactly one of the ten references for `\"`, `&`, `'`, `<` and `>` (by name, or decimal 34, 38, 39, 60, 62), and is copied unchanged otherwise; reading continues after that `;`, so nothing is decoded twice. An `&` with no `;` after it, and all other text, is copied unchanged. The result does not depend on anything decoded earlier.",
 ["inputs","histories"],"every string, and every sequence of strings decoded through the same converter",
 "Five strings are tested; off-by-one slicing and stale buffers show only for particular arrangements of `&` and `;` or after earlier calls.",
 [CLI+"html_entities.rs",CLI+"replace.rs"],
 [("replace_html_entities","html_entities.rs"),("HTML_RESERVED_MAP","html_entities.rs")],
 ["the LaTeX passed to the converter by the command-line tool"],
 state=[("entity_buffer","buffer reused between formulas","replace.rs")])

prop("C09","Error locations are valid and point into the source",
 "The location reported with an error is a range whose start is not after its end and whose end is not after the end of the input, with both ends on character boundaries. The position printed in the error message is the number of characters that precede the start of that range. The line and column the command-line tool prints are one plus the number of line breaks before the position, and one plus the number of characters since the last of them.",
 ["inputs"],"every input that fails to convert, and every position in every document",
 "Snapshot tests check about a hundred fixed errors in mostly ASCII input; validity of the range has to hold for every input, including macros, comments and multi-byte text.",
 [MC+"lexer.rs",MC+"error.rs",MC+"token.rs",MC+"parser.rs",CLI+"replace.rs"],
 [("Lexer span bookkeeping","lexer.rs"),("LatexError::to_message","error.rs"),("ordered_range","parser.rs"),("line_and_col","replace.rs")],
 ["LatexError.0","LatexError::to_message","ConversionError Display"])

prop("C10","Macro expansion is substitution of the arguments",
 "Using a macro gives the same result as writing its body at that place with every `#n` replaced by the n-th argument, where an argument is the next non-blank token or the content of the next brace group, and an empty argument or body acts as an empty group (a macro that supplies a script, delimiter, dimension or name to what stands before it, or stands alone as the argument of a built-in command, is outside, as is operator spacing ahead of a macro whose body starts with a parameter, a blank or another macro). Arguments are taken in order, exactly as many as declared, and the tokens after them are processed unchanged and in order, as if they had been read directly. The tokens of an argument keep their order and are used wherever its parameter occurs, any number of times, including in arguments of further macros.",
 ["inputs","programs"],"every macro definition with zero to nine parameters, every argument list and every nesting of macros within the expansion limit, at every place where an item or an argument of a formula is expected (not where a delimiter, dimension or name is read, and not for bodies that start with a script mark); runs of letters or digits may be split into several elements at the edges of a macro, and an empty body leaves an empty group",
 "A couple of dozen macro snippets are tested; the order and extent of substituted tokens must be right for every body and every state of the look-ahead.",
 [MC+"token_queue.rs",MC+"parser.rs",MC+"custom_cmds.rs"],
 [("queue_body_substituting, queue_stored_body_substituting, push_arg_front","token_queue.rs"),("CmdArgs","token_queue.rs"),("read_cmd_args","parser.rs"),("record_group, record_macro_body","token_queue.rs")],
 ["ConvertResult.mathml of an expression with macros vs. its hand-expanded form"],
 state=[("queue / next_non_whitespace","look-ahead buffer and index of its first non-blank token","token_queue.rs")])

prop("C11","Macro definitions follow TeX's scoping and binding rules",
 "A macro name means its most recent definition visible at the place of use: definitions in the snippet first, then those kept from earlier snippets, then the configured ones, then the built-in commands; names inside a body are looked up when the macro is used. Defining an existing name as new or redefining a missing one is an error, providing an existing one changes nothing, and copying a meaning keeps that meaning whatever happens to the original name later. Definitions made global or in global-group mode stay for later snippets with everything they refer to, and all other definitions are forgotten at the end of the snippet.",
 ["programs","histories","configurations"],"every sequence of definitions, redefinitions, copies and uses, across snippets, with configured macros and in both group modes",
 "Unit tests run about fifty fixed scripts; references between bodies in three stores must stay right after every history of definitions.",
 [MC+"custom_cmds.rs",MC+"token_queue.rs",MC+"parser.rs",MC+"string_pool.rs",MC+"lib.rs"],
 [("CustomCmds insert / insert_or_replace / absorb / remove","custom_cmds.rs"),("Stores::resolve_command, TokenQueue::define","token_queue.rs"),("define_command, let_command, global_prefix","parser.rs"),("StringPool","string_pool.rs")],
 ["ConvertResult.mathml of later uses","CommandAlreadyDefined / CommandNotDefined / UnknownCommand errors"],
 state=[("CustomCmds.tokens / map","bodies and the index of definitions","custom_cmds.rs")])

prop("C12","Macro expansion stops at exactly the configured limit",
 "A snippet may expand custom macros at most as many times as the configured maximum: a snippet that needs exactly that many expansions converts, and one that needs more fails with the too-many-expansions error instead of running on. Every expansion of a configured or document-defined macro counts exactly once (so does a built-in command that is itself a macro), and the budget starts afresh with each snippet. A limit of zero forbids all such expansions. (Expansions that would leave more than 65536 tokens waiting fail with a hard-limit error instead.)",
 ["inputs","programs","configurations"],"every limit and every (possibly self-referential) set of macros",
 "Tests use a few limits with one recursive macro; exactness at the boundary and termination for all definitions cannot be sampled.",
 [MC+"parser.rs",MC+"lib.rs"],
 [("count_expansion, expansions_left","parser.rs"),("MaxExpansions","lib.rs")],
 ["Ok/Err(TooManyExpansions) of a conversion"],
 state=[("expansions_left","remaining budget","parser.rs")])

prop("C13","Equation numbers, tags and label references are consistent",
 "Across the snippets of a document, automatically numbered rows get the consecutive numbers 1, 2, 3, ... in order: every row of the numbered environments counts except rows with a suppressed number or an own tag, starred environments number no row, and in a multi-line equation only the last row is numbered. A custom tag is shown as given (in parentheses unless starred), takes precedence over suppression and uses up no number. A reference to a label shows the number or tag of the row the label was set on, and a reference to an unknown label shows a placeholder and is reported as a warning.",
 ["inputs","histories"],"every sequence of snippets with any mix of numbered environments, tags, suppressions, labels and references",
 "Snapshot tests cover single environments; numbering depends on the whole history of rows and snippets.",
 [MC+"environments.rs",MC+"parser.rs",MC+"global_state.rs",MC+"lib.rs",MR+"ast.rs"],
 [("next_equation_tag","environments.rs"),("row/label handling","parser.rs"),("label lookup on emission","ast.rs")],
 ["numbers, ids and links in ConvertResult.mathml","Warnings"],
 state=[("equation_count, label_map","document-wide counter and labels","global_state.rs")])

prop("C14","Conversion state is isolated and can be reset",
 "Converting with local state depends only on the converter's configuration and the snippet: the result is the same whatever was converted before, and it changes nothing for later conversions. Converting with global state after a reset gives, for every further sequence of snippets, exactly what a newly created converter with the same configuration gives. Converting a collection in one call gives each snippet the numbers and macros that converting them one after another with global state would give.",
 ["histories","configurations"],"every history of conversions and resets on one converter",
 "Tests reset once after one snippet; a piece of state that survives only shows after particular histories.",
 [MC+"lib.rs",MC+"global_state.rs",MC+"custom_cmds.rs"],
 [("reset_global_state","lib.rs"),("convert_with_local_state / convert_all","lib.rs"),("CustomCmds::clear","custom_cmds.rs")],
 ["results of conversions after different histories"],
 state=[("GlobalState","counter, labels and document macros","global_state.rs")])

prop("C15","Colours are read and written exactly",
 "A named colour selects exactly the RGB value defined for that name; a colour given as six hexadecimal digits, or as three components (0 to 255, or fractions 0 to 1), selects exactly the RGB value it denotes, fractions being scaled by 255 and rounded to the nearest integer. Malformed specifications (unknown names, other digits, another number of components, components out of range) are errors. The colour in the output is always `#` followed by the two-digit hexadecimal values of the three components, in order.",
 ["inputs"],"every colour specification string in every colour model",
 "About ten specifications are tested; digit handling, rounding and range checks must be right for all 16.7 million colours and for every malformed string.",
 [MC+"color_defs.rs",MC+"parser.rs",MR+"itoa.rs",MR+"ast.rs"],
 [("colour command parsing","parser.rs"),("named colours","color_defs.rs"),("append_u8_as_hex","itoa.rs")],
 ["color style of rows","UnknownColor / colour specification errors"])

prop("C16","Pretty printing only adds line breaks and indentation",
 "Turning pretty printing on changes the output only by inserting a line break followed by indentation between tags: removing every inserted line break and the indentation that follows it gives exactly the output without pretty printing. The indentation at each place is the nesting level (elements that start on one line count as one) times the configured unit (that many spaces, or one tab), and never falls inside text content. Automatic mode equals always for block and never for inline display.",
 ["inputs","configurations"],"every input that converts, every indentation setting, both display modes",
 "Tests compare a few pretty-printed snapshots; that no text content gains or loses a character must hold for every output tree and setting.",
 [MR+"fmt.rs",MR+"ast.rs",MR+"table.rs",MC+"lib.rs"],
 [("new_line_and_indent","fmt.rs"),("Emitter indentation","ast.rs"),("emit","lib.rs")],
 ["ConvertResult.mathml with pretty_print Always / Never / Auto"])

prop("C17","Styles and spacing between atoms follow TeX's rules",
 "The math style in force follows TeX: scripts use script style (second order inside scripts), the parts of a fraction are one step smaller, explicit style commands act until the end of their group, and a choice between styles takes the branch of the style in force. A binary operator gets no space when it is first, follows an operator, relation, opening or punctuation symbol or another binary operator, precedes a relation, closing or punctuation symbol or the end, or is in script style. A relation gets no space in script style or on a side that meets another relation, punctuation, or an opening (before it) or closing (after it) symbol or edge of the formula.",
 ["inputs"],"every sequence of atoms in every style and grouping",
 "Snapshot tests fix some combinations; the rule is a table over all class pairs and styles, applied at every position of every formula.",
 [MC+"parser.rs",MC+"character_class.rs",MR+"attribute.rs",MC+"token.rs"],
 [("relation_spacing, bin_op_spacing, punctuation_spacing, mathinner_spacing","parser.rs"),("Style::shrink / scriptify","attribute.rs"),("mathchoice","parser.rs")],
 ["lspace/rspace attributes","branch taken by \\mathchoice"],
 state=[("style","style in force","parser.rs")])

prop("C18","Tables keep the rows, cells and alignment the source gives",
 "In every table-like environment, the rows of the output are the stretches between the row separators of that environment and the cells of each row the stretches between its column separators, in order, with nothing lost, merged or duplicated (separators inside nested environments belong to those). Each cell has the alignment, padding and borders its column and row position call for: the column specification in arrays, right/left alternation in alignments, left in case lists, first left / last right / others centred in multi-line equations. Horizontal lines apply to all cells of the row that follows them.",
 ["inputs"],"every number of rows and columns, any specification, any nesting of tables in cells",
 "Snapshot tests use tables of up to three rows; column indexes and row state must stay right for any size and nesting.",
 [MR+"table.rs",MR+"ast.rs",MC+"environments.rs",MC+"parser.rs"],
 [("ColumnGenerator::write_next_mtd","table.rs"),("Emitter::emit_table","ast.rs"),("construct_node","environments.rs")],
 ["mtable/mtr/mtd structure and style attributes"])

prop("C19","Conversion never panics: every input gives output or an error",
 "For every input string, display mode and configuration, converting returns either a result or an error; it never panics, reads out of bounds or runs forever. The same holds for turning any error into a message or an HTML snippet. (Nesting deep enough to exhaust the call stack is excluded.)",
 ["inputs","configurations"],"every string, both display modes, every configuration",
 "Tests run a few hundred inputs; unsafe code, unchecked indexing and arithmetic need all inputs.",
 [MC+"lexer.rs",MC+"token_queue.rs",MC+"parser.rs",MC+"html_utils.rs",MC+"atof.rs",MC+"string_pool.rs",MC+"custom_cmds.rs",MR+"ast.rs",MR+"arena.rs",MR+"itoa.rs"],
 [("Lexer","lexer.rs"),("TokenQueue look-ahead invariant","token_queue.rs"),("unchecked accesses","string_pool.rs, environments.rs, arena.rs")],
 ["LatexToMathML::convert_*","LatexError::to_html / to_message"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert p["statement"].count(". ")<=3,(p["id"],p["statement"].count(". "))
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
