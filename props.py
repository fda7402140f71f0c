"""What each check runs: Verus units (units/*.vx), Kani harnesses, witness programs."""
TRUSTED_MACROS = ["constant(t) marks the values the &'static tables can hold; axiom_constant / axiom_plain_constants: such a token is no unresolved name and no out-of-range parameter",
                 "the built-in lookup is a function of the name (axiom_builtin: it yields constants)", "the lexer is a stream of outputs that ends in Eoi forever (axiom_end)",
                 "hash map of definitions (get, insert, clear, iteration), the arena, KString: assumed contracts", "VecDeque growth and indexing through vx_at_mut; at most isize::MAX elements",
                 "the standard reflexive From", "Token::class is uninterpreted here"]

PROPS = {
    "C01": dict(
        units=["c01_escape"],
        witness=[("witness/core", "wcore")],
        covers="Both escaping functions, LatexError::to_message and LatexError::to_html are under contract: the bytes written are exactly the escaped bytes, "
               "with lemmas that decoding gives the text back, that no raw `<` `>` (content) or `\"` (attribute) remains, that every `&` starts a reference, and that the bytes are valid UTF-8.",
        assumptions=["memchr3 returns the first of the three bytes (assumed contract)", "String::as_mut_vec exposes the UTF-8 bytes (assumed contract)",
                     "the annotation is written through escape_html_content (checked by the bounded search on LatexToMathML)"],
    ),
    "C02": dict(
        units=["c02_render"],
        witness=[("witness/core", "wcore")],
        covers="The whole renderer is under contract against a character-by-character reader of markup that keeps the stack of open elements, the number of children where it matters, and the attribute names of the tag being read: "
               "Emitter::emit (every arm), emit_table, the column generator, operator attributes, lengths, colours, escaping, equation numbers and labels, node_vec_to_node and the `emit` of lib.rs. "
               "For every tree, configuration and nesting depth the document is read from start to end without an error: tags nested and closed, attributes quoted and not repeated, text escaped, "
               "fractions, roots, scripts and over/underscripts with exactly their number of children, tables made of rows of cells, `semantics` of a formula and an annotation.",
        assumptions=["the tree handed to the renderer satisfies `tree_ok`: separators only directly in tables, numbers and letters that need no escaping, no contradictory operator attributes, finite offsets, labels without `&` (what the parser builds is covered by the bounded search)",
                     "the class name and id prefix of the configuration are attribute-safe (part of the property)",
                     "dtoa writes no markup character; percent_encode replaces every ASCII character of its set; the arena returns what it is given; the map of labels is a map (assumed contracts)",
                     "a slice is at most isize::MAX bytes long"],
    ),
    "C03": dict(
        units=["c03_symbols"], kani={"rend": ["negation_is_canonical_composition"]},
        witness=[("witness/rend", "wrend"), ("witness/core", "wcore")],
        covers="SuperChar (construction, base character, decomposition, overlay), the iterator over its characters, the Display of SuperChar and of MathMLOperator and the escaping they go through are under contract: "
               "for every character the bytes written are exactly the base character, escaped for XML, followed by its overlay; Kani decides for all characters that the negated form is the canonical composition.",
        assumptions=["formatting a char writes its UTF-8 encoding (assumed contract)", "which command yields which symbol (the tables in commands.rs) is compared with a frozen copy by the bounded search only"],
    ),
    "C04": dict(
        units=["c04_alphabets"],
        witness=[("witness/rend", "wrend"), ("witness/core", "wcore")],
        covers="MathVariant::transform, transform_char and add_offset are under contract: for every character and every variant the result is the entry of the mathematical-alphanumeric table (built independently from the Unicode names), and the identity outside the table.",
        assumptions=["char::from_u32_unchecked of a scalar value is that scalar value (assumed contract; the precondition is discharged)",
                     "the recorded finding about Fraktur I and the unassigned U+03A2 are excluded from the contract",
                     "which variant is in force for a letter is covered by the bounded search only"],
    ),
    "C05": dict(
        units=["c05_length"],
        witness=[("witness/core", "wcore")],
        covers="parse_length_specification, limited_float_parse, LatexUnit::is_math_unit and length_with_unit, Length::new and Length::push_to_string are under contract: for every string, "
               "the specification is split into sign, number and unit exactly as stated, wrong text is refused, the mu and non-mu units are kept apart, the unit factors are the stated ones, "
               "and the length is written as the number, followed by its CSS unit.",
        assumptions=["f32 and f64 operations are uninterpreted functions (IEEE arithmetic itself is the machine's)", "the dtoa crate writes a decimal numeral of the value (assumed contract)",
                     "the derived EnumString parser maps the spellings written in the enum (contract generated from its attributes)",
                     "which length argument each command hands over, and where the length ends up in the markup, are covered by the bounded search only"],
    ),
    "C06": dict(
        units=["c06_columns"],
        witness=[("witness/core", "wcore")],
        covers="parse_column_specification is under contract: for every string the result is the declaratively specified sequence of columns, border lines and the left border, or a refusal exactly when a character is unknown or there is no column.",
        assumptions=["the arena returns a copy of the slice it is given (assumed contract)", "u8::is_ascii_whitespace (assumed contract)",
                     "reading the braced group and numbering of cells in the markup are covered by the bounded search only"],
    ),
    "C07": dict(
        units=["c07_replace"],
        witness=[("witness/cli", "wcli")],
        covers="Replacer::new, find_delimiter_position, find_next_delimiter, replace, line_and_col and replace_html_entities are under contract: for every document and every pair of non-empty delimiters, "
               "the result is the text outside the delimiters woven with one converter output per formula, in order and with the right mode, or the first delimiter error with its position.",
        assumptions=["memmem::Finder::find returns the first occurrence (assumed contract)", "the four delimiters are non-empty (the command-line tool rejects empty ones)",
                     "the converter callback appends one output per call (trait contract of the closure)", "phf map lookup returns the entry written in the source (assumed contract generated from the macro call)",
                     "reading and writing the file, and option handling in main.rs, are covered by the bounded search only"],
    ),
    "C08": dict(
        units=["c08_entities"],
        witness=[("witness/cli", "wcli")],
        covers="replace_html_entities is under contract: the buffer holds exactly the specified left-to-right decoding of the input, whatever it held before.",
        assumptions=["memchr returns the first occurrence (assumed contract)", "phf map lookup returns the entry written in the source (assumed contract generated from the macro call)"],
    ),
    "C09": dict(
        units=["c07_replace", "c01_escape", "c09_lexer"],
        witness=[("witness/core", "wcore"), ("witness/cli", "wcli")],
        covers="The whole lexer (Lexer::new, read_char, skip_whitespace, read_command, read_env_name, next_token, parse_env_marker) is under contract against a declarative description of what is read at each position: every token's span and every error's range starts and ends on character boundaries inside the input, in order, "
               "covers exactly the characters read (comments and blanks skipped exactly), every slice taken of the input is valid, and every step moves on until the end of the input; ordered_range yields an ordered range; line_and_col (line and column are the counts of the statement) and LatexError::to_message (the number printed is the count of characters before the start) are under contract.",
        assumptions=["String formatting of integers prints the decimal numeral (assumed contract)", "CharIndices yields the characters with their offsets; equal contents mean equal &str (assumed contracts)", "which token's span the parser puts into an error, and the spans of tokens coming from macros, are covered by the bounded search only"],
    ),
    "C10": dict(
        units=["c10_macros"],
        witness=[("witness/core", "wcore")],
        covers="The token queue and the arms of the parser that expand a macro are under contract against the stream of items still to come: "
               "reading an argument takes exactly the next non-blank token or the content of the next group, Parser::read_cmd_args yields as many arguments as the macro declares, in order, "
               "queue_in_front with arguments puts the body with every parameter replaced by its argument in front of the untouched rest of the stream, "
               "and the recorded body of a definition (record_macro_body, map_recorded_tokens) is the group as written.",
        assumptions=["what the parser builds from the expanded stream, and definitions made inside macro bodies, are covered by the bounded search only",
                     "spacing decided by look-ahead over a macro call is covered by the bounded search only"],
        trusted=TRUSTED_MACROS,
    ),
    "C11": dict(
        units=["c10_macros"],
        witness=[("witness/core", "wcore")],
        covers="Lookup (CustomCmds, Stores::resolve: snippet definitions, kept ones, configured ones, built-in ones, in that order), TokenQueue::define (new, replacing, global, re-resolution of everything already buffered), "
               "define_alias, promotion of what a global definition refers to, CustomCmds::clear, and the parser's define_command (\\newcommand, \\renewcommand, \\providecommand), let_command, def_command, global_prefix and read_definition_name are under contract: "
               "an invariant of the queue states that every buffered token already means what its name means under the current definitions.",
        assumptions=["the moment at which the parser drops the snippet's definitions is covered by the bounded search only"],
        trusted=TRUSTED_MACROS,
    ),
    "C12": dict(
        units=["c10_macros"],
        witness=[("witness/core", "wcore")],
        covers="Parser::count_expansion and the two arms that expand a custom macro are under contract: an expansion of a configured, kept or snippet macro takes exactly one from the budget and fails exactly when nothing is left, "
               "and no other function of the queue touches the budget; the queue's hard limit is an error and never an overflow.",
        assumptions=["Parser::new sets the budget to the configured maximum (bounded search)", "that no other arm of the parser changes the budget is covered by the bounded search only"],
        trusted=TRUSTED_MACROS,
    ),
    "C13": dict(
        units=["c13_numbers", "c13_shown"],
        witness=[("witness/core", "wcore")],
        covers="NumberedEnvState::next_equation_tag, Env::new_state / get_numbered_env_state / construct_node / style, EnvState::separates_cells and the parser's arms for `\\\\`, \\begin, \\notag, \\tag, \\label and \\eqref "
               "(cut out of the real match on every run) are under contract: what each row is given, what it leaves behind, that its label stands for its tag, that a nested environment leaves the outer one alone, and that the last row's tag reaches the node. "
               "Lemmas over any sequence of rows: plain rows are numbered consecutively, starred environments count nothing, in a multi-line equation only the last row is given anything. "
               "The renderer's write_equation_num and its arm for references are under contract for the exact text: tag, parentheses, identifier, `??` and the warning.",
        assumptions=["a row with both an own tag and a suppression is the recorded finding notag-tag-carry (excluded from the lemma on consecutive numbers)",
                     "the cells of an environment change the environment's state only through the commands above (parse_sequence_if_in_sequence has an assumed contract; bounded search)",
                     "emit_table hands each row its own label information (bounded search)"],
        trusted=["the hash map of labels is a map; KString, the arena, core::mem::replace and NonZero arithmetic: assumed contracts", "percent_encode is a function of the label (assumed contract)",
                 "TokenQueue::next and peek leave the stores alone (proved in c10_macros, assumed here); reading an argument yields a function of the queue"],
    ),
    "C14": dict(
        units=["c14_state"],
        witness=[("witness/core", "wcore")],
        covers="LatexToMathML::new, convert_with_global_state, convert_with_local_state, reset_global_state and convert_all, the functions `convert` and CustomCmds::clear are under contract over the whole content of the state (count, labels, macro bodies, macro names): "
               "what each call returns and leaves behind is a function of the snippet, the configuration and the state, a reset leaves exactly the state of a new converter, local conversions start from that state and leave the converter alone, "
               "a collection runs through the states of one-after-the-other conversion. Lemmas over every history of calls: after a reset everything goes as on a new converter, local calls can be left out of a history, "
               "each snippet of a collection starts from the state it would start from one after the other.",
        assumptions=["`parse` (the parser) and `emit` (the renderer) are functions of their arguments and of the state's content: assumed contracts over uninterpreted functions; hidden state (statics, interior mutability) is searched for by the bounded search only",
                     "GlobalState::default() (derived) is the empty state"],
        trusted=["hash maps are maps (clear empties them)", "reading the macros of the configuration is a function of them"],
    ),
    "C15": dict(
        units=["c15_colours", "c15_parse"],
        witness=[("witness/core", "wcore")],
        covers="get_color, the hexadecimal digit parsers and append_u8_as_hex are under contract: for every name the named colour is the entry of the frozen table, for every byte the two digits written denote it, and reading a digit undoes writing it. "
               "The parser's arm for \\color (cut out of the real match on every run) and limited_float_parse are under contract: whatever the tokens are, the row that is built carries exactly the colour that the model and the description denote "
               "(rgb fractions scaled and rounded, RGB components, six hexadecimal digits, or the named colour), and an unknown name or model, another number of components, a component that is no number or out of range, or other digits yield no colour.",
        assumptions=["phf map lookup returns the entry written in the source (assumed contract generated from the macro call)",
                     "split_on_ascii yields the stretches between the separators, str::trim and the string builder: assumed contracts", "floating-point comparison and conversion are uninterpreted functions (`x as u8` is what the machine does)"],
        trusted=["TokenQueue::next is a function of the queue; reading an argument yields a function of the queue"],
    ),
    "C16": dict(
        units=["c16_indent", "c16_breaks"],
        witness=[("witness/core", "wcore")],
        covers="new_line_and_indent and the two Indentation spellings are under contract: what pretty printing adds is exactly a line feed followed by the level's number of indentation units, and nothing when there is no indentation. "
               "The whole renderer (emit of the renderer with an arm per node, emit_table, write_next_mtd, write_equation_num, the attributes; emit of the converter) is under contract with an output that keeps texts and breaks apart and levels that carry the value of two runs: "
               "for every tree and configuration the run without pretty printing writes the same texts and no break; every break stands between two tags; with pretty printing every break is a line feed and at least the level of its element; Always and Auto in block display break lines, Never and Auto in inline display do not.",
        assumptions=["an indentation level is only used through the operations of the two-run type (deeper, new_line_and_indent): the renderer does not compile against it otherwise, and such code is reported as not analysable",
                     "the number and length writers write some text that does not depend on the indentation (their own contracts are those of C05, C15)",
                     "that the level of a break is exactly the nesting depth (and not more) is covered by the bounded search only"],
    ),
    "C17": dict(
        units=["c17_atoms", "c17_arms"],
        witness=[("witness/core", "wcore")],
        covers="Token::class (every token, recursively through macro bodies), Style::shrink/scriptify, the spacing functions of ParserState, mathop_spacing, peek_class_token, relation_attrs, StretchableOp, fenced, extract_delimiter, middle_stretch_attrs, "
               "Bounds/BoundsWithLimits, node_vec_to_node, commit, parse_next, parse_sequence_if_in_sequence, and the arms of parse_one_token for relations, binary operators, punctuation, inner atoms, forced classes, big operators, named operators, ordinary symbols, "
               "opening, closing and middle delimiters, \\left, \\big…, \\frac/\\binom, \\sqrt, \\overset/\\underset, \\mathrel…, style commands, \\phantom, accents, \\enclose, groups and font commands are under contract: for every pair of neighbouring classes, style and position the spaces, "
               "the class handed to the next atom, the style of each part and the attributes of the node are those of the declarative table; the style and position in force before a construct are in force after it.",
        assumptions=["the recursive parse functions are deterministic functions of the parser state (`parsed`, `sequence`, `arg`, `scripts` …, uninterpreted) that give back style, font and position as they found them (`scoped`, assumed where the callee is not itself under contract)",
                     "the panics under cfg!(debug_assertions) are dropped; `return Ok(Parsed::Node(class, target))` is written as a returned copy of the node",
                     "get_bounds, the arms for primes, \\overbrace, \\prescript, \\sideset, arrows and \\cramped are covered by the bounded search only"],
    ),
    "C18": dict(
        units=["c18_table", "c06_columns"],
        witness=[("witness/core", "wcore")],
        covers="ColumnGenerator (all methods), write_simple_mtd and write_next_mtd are under contract: for every column specification, cell index and option the cell element written carries exactly the alignment, borders and padding the declarative specification gives; "
               "parse_column_specification yields exactly the specified columns; emit_table and the arms of emit for tables, arrays, equation arrays and multline write, for every content, exactly the rows and cells between its separators, each with the cell of its column and row, "
               "the number of its row, and the line above it for the row that follows the separator.",
        assumptions=["the arena returns a copy of the slice it is given (assumed contract)", "what a node inside a cell is rendered as is a function of the node, its level and the configuration (uninterpreted; C02 and C16 have the renderer itself)",
                     "that the separators of the content are those of the source (parse_sequence) is covered by the bounded search only"],
    ),
    "C19": dict(
        units=["c01_escape", "c02_render", "c03_symbols", "c04_alphabets", "c05_length", "c06_columns", "c09_lexer", "c10_macros", "c13_numbers", "c13_shown", "c14_state",
               "c15_colours", "c15_parse", "c16_indent", "c17_atoms", "c17_arms", "c18_table"],
        panics=True,
        witness=[("witness/core", "wcore")],
        covers="every function of the converter that is under contract for another property is proved to end normally for all inputs satisfying its precondition: no reachable unreachable!/panic!/unwrap of nothing, no index or slice out of bounds (slices on character boundaries), "
               "no arithmetic overflow, and loops that carry a decreases clause end. Only these obligations decide this property: a functional obligation that fails is reported by the check of its own property.",
        assumptions=["functions not under contract are covered by the bounded search only", "loops over the token stream and recursion through the parser are not proved to terminate (bounded search with a watchdog)",
                     "the vacuity guard for these units is run by the checks of the properties they belong to"],
    ),
}
