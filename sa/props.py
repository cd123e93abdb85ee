PROPS = [
 dict(id="C01", title="Conversions are deterministic functions of their arguments",
  statement="Every conversion the library exports (encode, decode, event streams, JSON rendering, path expansion, key folding) gives a result that depends only on its arguments. It never depends on hash-table iteration order, random seeds, clocks, the environment, memory addresses, thread identity, or state left behind by earlier calls.",
  over=["inputs", "histories", "configurations"], text="all inputs, options, call histories, processes",
  why="A test runs one process with one hash seed and few call histories; order dependence shows only on some seeds and sizes.",
  files=["src/decode/event_builder.rs", "src/decode/expand.rs", "src/encode/encoders.rs", "src/encode/folding.rs"],
  mech=[("ordered Vec entries; hash sets used for membership only", "src/decode/event_builder.rs, src/decode/expand.rs, src/encode/folding.rs")],
  observe=["results of every exported function"],
  technique="effect analysis over the resolved MIR call graph",
  note="Sound for direct, generic-resolved and trait calls inside the crate; external callees are classified by module, unknown ones are reported. Trusts rustc's resolution and the classification of core/alloc/std/serde_json."),
 dict(id="C02", title="The library performs no ambient I/O",
  statement="No exported library conversion opens files or sockets, reads or writes the standard streams, starts threads or processes, exits the process, or installs process-wide hooks; only the command-line entry point does I/O.",
  over=["inputs", "configurations"], text="all inputs and options of every exported conversion",
  why="Tests check return values; a stray write or file access on a rare path leaves them unchanged.",
  files=["src/lib.rs", "src/decode/mod.rs", "src/encode/mod.rs", "src/cli/conversion.rs"],
  mech=[("I/O confined to the CLI driver", "src/cli/mod.rs")],
  observe=["system calls made while a conversion runs"],
  technique="effect analysis over the resolved MIR call graph",
  note="As C01. The caller's own replacer and iterators are outside the claim."),
 dict(id="C03", title="The CLI touches only the files it was told to",
  statement="Running the command-line tool reads no file other than the named input and creates, truncates or writes no file other than the named output (-o); it removes or renames nothing and starts no process or network connection. Without -o it creates no file at all.",
  over=["inputs", "configurations", "environment"], text="all command lines and outcomes of every system call",
  why="Extra file effects happen on rare paths (existing output, errors) and leave the compared output unchanged.",
  files=["src/cli/mod.rs", "src/cli/args.rs", "src/main.rs"],
  mech=[("all I/O in a few driver functions", "src/cli/mod.rs")],
  observe=["file-system calls of the toon process"],
  technique="abstract interpretation of MIR: path argument of every file-system call, effect classification of everything else",
  note="Covers the crate's own code on every path; clap's parser and the dynamic loader are outside."),
 dict(id="C04", title="A failed conversion leaves the output file untouched",
  statement="The CLI creates (and thereby truncates) the -o file only after the whole conversion has succeeded: if the input cannot be read, is not valid, or is rejected by strict mode, an existing output file keeps its contents and a missing one is not created.",
  over=["inputs", "environment"], text="all command lines, inputs and outcomes of every system call",
  why="Needs the order of effects on every failing path, with a pre-existing output.",
  files=["src/cli/mod.rs"],
  mech=[("convert fully in memory, then create", "src/cli/mod.rs run_encode/run_decode")],
  observe=["output file after a failed run"],
  technique="abstract interpretation of MIR with a ghost effect order (typestate)",
  note="Every create site is dominated, on every abstract path, by a successful conversion, and no conversion follows it."),
 dict(id="C05", title="The CLI never reports success after a failure",
  statement="If reading the input, converting it, creating the output, writing any part of it or flushing it fails, the CLI ends with a nonzero exit status; it ends with status 0 only when every one of these steps succeeded and all buffered output was flushed with the result checked.",
  over=["inputs", "environment"], text="all command lines, inputs and outcomes (success or failure) of every system call",
  why="Tests never see a failing write; an ignored Result or an unflushed buffer loses output silently.",
  files=["src/cli/mod.rs", "src/main.rs"],
  mech=[("? after every I/O call; explicit flush of BufWriter", "src/cli/mod.rs"), ("exit(1) on Err", "src/main.rs")],
  observe=["exit status of the toon process"],
  technique="abstract interpretation of MIR with failure and dirty-buffer ghost state (typestate), both outcomes of every I/O call",
  note="Models write_all as all-or-error, stdout as line buffered. Fixed on this tree: the final flush of the output file was not checked (commit 1503986)."),
 dict(id="C26", title="Command-line options and defaults reach the conversion unchanged",
  statement="The conversion the CLI runs gets exactly what the command line says: --encode/--decode select the direction; indent, delimiter, key folding, flatten depth, path expansion and strictness (strict unless --no-strict) are passed as given, in every combination; the input is standard input exactly when no file or \"-\" is named, and the whole of what was read is converted. In the library, an option that is given is used as given and a missing one takes its default (indent 2, comma, strict, no folding, no expansion, unlimited flatten depth).",
  over=["configurations"], text="all combinations of flags and all option values",
  why="Flag interactions are combinatorial; tests try a few flags one at a time.",
  files=["src/cli/mod.rs", "src/cli/args.rs", "src/options.rs"],
  mech=[("options built from Args", "src/cli/mod.rs run_encode/run_decode"), ("resolve_encode_options / resolve_decode_options", "src/options.rs")],
  observe=["option values at the conversion call"],
  technique="abstract interpretation of MIR per flag combination; symbolic comparison of option values",
  note="clap's own parsing and the extension-based mode guess are not covered."),
 dict(id="C35", title="The CLI writes the whole result, in order, and nothing else",
  statement="On success the CLI has written, to standard output or the output file, exactly the conversion's result: when encoding, every line in order separated by single newlines; when decoding, every chunk in order with nothing in between; then one final newline. Nothing else goes to that stream (statistics and messages go to standard error).",
  over=["inputs", "configurations"], text="all results of any length, all command lines",
  why="Loss or reordering depends on the number and size of lines or chunks; tests use small outputs.",
  files=["src/cli/mod.rs"],
  mech=[("write_lines / write_chunks / write_output", "src/cli/mod.rs")],
  observe=["bytes written to the output"],
  technique="abstract interpretation of MIR with an output automaton and a symbolic count of lines written",
  note="The position written is proved equal to the count so far, and the count at success equal to the result's length."),
 dict(id="C06", title="An internal failure is never swallowed",
  statement="When any step of an operation fails (reading, JSON or TOON parsing, unescaping, validation, path expansion, event processing), the operation as a whole fails: no function of the library or the CLI returns a success, a default or a partial result after one of its fallible steps returned an error. The one documented exception: a malformed bracket segment means the line is not an array header, and the line is parsed as ordinary content instead.",
  over=["inputs", "configurations", "environment"], text="all inputs and options, and both outcomes of every fallible call",
  why="Errors deep in nested data or on later rows are rarely exercised; a swallowed error looks like a normal result.",
  files=["src/decode/decoders.rs", "src/decode/parser.rs", "src/decode/expand.rs", "src/decode/event_builder.rs", "src/cli/mod.rs", "src/cli/conversion.rs"],
  mech=[("? after every fallible call", "src/decode/*.rs, src/cli/*.rs")],
  observe=["Result of every public operation when an inner step fails"],
  technique="modular abstract interpretation of MIR with a failure ghost state (error-propagation typestate)",
  note="Every call whose result is a Result over ToonError, io::Error, serde_json::Error or (crate-local) String is split into both outcomes. Error types that carry a benign meaning (number parsing) are not included."),
 dict(id="C07", title="A successful decode yields exactly one well-formed event sequence",
  statement="Whenever event decoding succeeds (decode_stream_sync, and everything built on it, in strict or lenient mode), the events form exactly one complete JSON value: every StartObject/StartArray has its matching EndObject/EndArray in nesting order, inside an object every Key is followed by exactly one value and every value is preceded by a Key, no Key occurs directly inside an array or at top level, and nothing follows the root value.",
  over=["inputs", "configurations"], text="all input lines, nesting shapes and decode options",
  why="Malformed nesting shows only for particular combinations of indentation, list items and headers; tests sample a few documents.",
  files=["src/decode/decoders.rs", "src/decode/scanner.rs", "src/decode/validation.rs"],
  mech=[("events pushed by mutually recursive decoders", "src/decode/decoders.rs")],
  observe=["event vector returned by decode_stream_sync"],
  technique="abstract interpretation of MIR with an event-grammar (pushdown typestate) domain",
  note="Exact grammar for every path the abstract interpreter covers (all); the per-line token parsers are uninterpreted functions, so the result does not depend on what they compute. Trusts the models of std collection/iterator operations."),
 dict(id="C10", title="Strict decoding never accepts an array whose items do not match its declaration",
  statement="In strict mode, whenever decoding succeeds, every array has exactly as many items as its header declares (inline, tabular and list forms, at every nesting level), every row object of a tabular array has exactly as many members as the header has fields, and no value is invented to pad a short row: every primitive event comes from a token of the input.",
  over=["inputs"], text="all documents in strict mode",
  why="Needs the count relation at every array form and nesting depth, including error recovery paths; tests check a few mismatches.",
  files=["src/decode/decoders.rs", "src/decode/validation.rs"],
  mech=[("assert_expected_count after each array form", "src/decode/decoders.rs")],
  observe=["length in StartArray versus items between StartArray and EndArray"],
  technique="abstract interpretation of MIR with symbolic item counts and difference-bound facts",
  note="The relation count == declared length is proved at each EndArray push on every path in strict mode. Extra lines after the declared items (C11) are a separate property."),
 dict(id="C11", title="Strict decoding never drops a line",
  statement="In strict mode, whenever decoding succeeds, every non-blank line of the document has been read, one after the other, and its text was used: it was handed to a key, header, row or value parser, or it is exactly a bare list marker. No line is skipped, ignored or left over: content after the root value, lines indented too deep, and items or rows beyond the declared number make the decode fail.",
  over=["inputs"], text="all documents in strict mode",
  why="A dropped line leaves a well-formed result behind; tests compare a few documents and never see the combination of nesting and stray content that is lost.",
  files=["src/decode/decoders.rs", "src/decode/scanner.rs", "src/decode/validation.rs"],
  mech=[("line cursor advanced only after a line was recognised", "src/decode/scanner.rs StreamingLineCursor"), ("unread lines rejected at the end", "src/decode/validation.rs validate_no_unread_lines")],
  observe=["lines of the document versus events"],
  technique="abstract interpretation of MIR with a line-consumption typestate",
  note="What a token parser does with the text it is given is not part of the rule (uninterpreted). Fixed on this tree (ccff147): lines that belonged to nothing ended a strict decode early and silently."),
 dict(id="C13", title="Depth is leading spaces over indent size; strict rejects exactly bad indentation",
  statement="In every decode, a line's indentation is exactly its run of leading spaces, its nesting depth is that number divided by the indent size (rounded down; 0 when the indent size is 0), its content is the rest of the line unchanged, and its line number is its position in the document. In strict mode a non-blank line is rejected for its indentation exactly when a tab stands among its leading spaces and tabs, or the number of leading spaces is not a multiple of the indent size (with indent size 0: is not zero); in lenient mode no line is rejected for its indentation.",
  over=["inputs", "configurations"], text="all lines, both modes and every indent size",
  why="Depth decides nesting for the whole document; a wrong class of characters or a skipped check shows only for particular mixtures of spaces, tabs and indent sizes.",
  files=["src/decode/scanner.rs", "src/decode/decoders.rs"],
  mech=[("parse_line_incremental", "src/decode/scanner.rs"), ("parse_lines_sync", "src/decode/scanner.rs")],
  observe=["depth, content and line number given to the decoder", "errors raised by the line scanner"],
  technique="abstract interpretation of MIR with byte-class facts about prefixes of a line and divisibility facts",
  note="Four configurations cover all options: strict on/off, indent size 0 or any positive number. Decided for the synchronous decoder; the async decoder's final result comes from the same code (C27)."),
 dict(id="C14", title="Lenient decoding never fails because of layout",
  statement="With strict = false, decoding never returns an error because of a document's layout: array item counts that differ from the declaration, rows that are too short or too long, extra items or rows, blank lines, tabs in indentation and indentation that is not a multiple of the indent size are all tolerated. The only errors left are those the per-token parsers raise about a single token's own text (a string literal, a key, a number-like token, a header).",
  over=["inputs"], text="all documents with strict = false",
  why="An unconditional layout error on a rare path is invisible to tests that use strict mode or well-formed input.",
  files=["src/decode/decoders.rs", "src/decode/scanner.rs", "src/decode/validation.rs"],
  mech=[("strict flag tested before each layout error", "src/decode/validation.rs, src/decode/scanner.rs")],
  observe=["Result of decode_stream_sync with strict = Some(false)"],
  technique="path-sensitive reachability over MIR abstract interpretation",
  note="Every construction of ToonError outside the per-token parsers is shown unreachable with strict = false; vacuity is guarded by requiring them reachable with strict = true."),
 dict(id="C20", title="Every primitive written is read back as the same value",
  statement="A string, number, boolean or null that the encoder writes - as the value of a key, as an item of a list, as the whole document, or as an element of an inline array or a table row - is read back by the decoder, from the line it stands on, as a primitive of the same type with the same value: a string character for character (whatever characters it holds, under every delimiter), a number as the number its decimal text stands for, true, false and null as themselves. In particular no string is written in a form that reads as a number, a literal, a key or a header, and no number is written through a lossy conversion.",
  over=["inputs", "configurations"], text="all strings of any length, all finite numbers, all three delimiters",
  why="Quoting and recognition rules meet only for particular texts (look-alikes of numbers, literals, headers, escapes); tests and random generation sample few of them.",
  files=["src/encode/primitives.rs", "src/shared/validation.rs", "src/shared/literal_utils.rs", "src/shared/string_utils.rs", "src/decode/parser.rs"],
  mech=[("is_safe_unquoted decides quoting", "src/shared/validation.rs"), ("parse_primitive_token", "src/decode/parser.rs"), ("escape_string / unescape_string", "src/shared/string_utils.rs")],
  observe=["primitive in the decoded value"],
  technique="abstract interpretation of MIR over regular languages: the encoder's output shapes become automata on which the decoder's functions are run",
  note="Line level: which line belongs to which container is C07/C10/C11/C13's business. Display of f64 and str::parse::<f64> are trusted to be inverse on finite numbers; the language of Display is part of the model. Shapes the analysis cannot finish are listed as undecided in the evidence and are not part of the claim."),
 dict(id="C21", title="Every key and field name written is read back unchanged",
  statement="A key or column name the encoder writes - before a value, before a nested object, in an array header or in the field list of a table - is read back by the decoder as exactly the same text, and the line is recognised as what it was written as: a key-value line is never taken for an array header or the other way round, and a field list is never lost, truncated or invented.",
  over=["inputs", "configurations"], text="all keys of any length and any characters, all three delimiters",
  why="Keys that hold quotes, brackets, braces, colons or the delimiter interact with header recognition; tests try a handful.",
  files=["src/encode/primitives.rs", "src/shared/validation.rs", "src/decode/parser.rs", "src/decode/decoders.rs"],
  mech=[("encode_key / format_header", "src/encode/primitives.rs"), ("parse_key_token / parse_array_header_line", "src/decode/parser.rs")],
  observe=["keys in the decoded value"],
  technique="abstract interpretation of MIR over regular languages: the encoder's output shapes become automata on which the decoder's functions are run",
  note="Fixed on this tree: 69b2125 (a value containing [N]: was taken for a header) and 58d8b89 (a closing brace inside a quoted field name cut the field list). A field list of several names is decided through its elements (C25) and its outline."),
 dict(id="C25", title="Lists are split with the delimiter they were joined with",
  statement="Under every delimiter option the encoder joins the elements of an inline array, the cells of a table row and the names of a field list with exactly that delimiter, the header announces it, the decoder reads the header with that delimiter, and splitting the text with it gives back the elements one by one: no element is split, merged with another, lost or read twice, whatever characters it holds.",
  over=["inputs", "configurations"], text="all element texts, list lengths and delimiters",
  why="The delimiter inside quotes, escapes next to it and empty elements combine in ways tests do not enumerate.",
  files=["src/encode/primitives.rs", "src/decode/parser.rs"],
  mech=[("encode_and_join_primitives / format_header", "src/encode/primitives.rs"), ("parse_delimited_values / parse_bracket_segment", "src/decode/parser.rs")],
  observe=["elements of decoded arrays, rows and field lists"],
  technique="abstract interpretation of MIR over regular languages, with one element of an arbitrarily long list in focus",
  note="The list is E (delimiter E)*; the decoder's splitter is run on it with one element marked, all others arbitrary."),
 dict(id="C32", title="Every line the encoder produces is one physical line",
  statement="No line the encoder produces contains a raw line feed or carriage return, whatever the strings and keys of the value hold: such characters are always escaped inside quotes, so the lines the library returns are the lines of the document it stands for.",
  over=["inputs", "configurations"], text="all values, keys, delimiters",
  why="One unescaped path (a key, a header field, a cell) breaks the document for a character tests rarely put there.",
  files=["src/encode/encoders.rs", "src/encode/primitives.rs", "src/shared/string_utils.rs", "src/shared/validation.rs"],
  mech=[("quoting and escape_string", "src/encode/primitives.rs, src/shared/string_utils.rs")],
  observe=["text of every encoded line"],
  technique="abstract interpretation of MIR over regular languages of the texts appended to each line",
  note="Every append to an output line is covered, with the language of the text appended."),
 dict(id="C33", title="The array length written is the length the decoder expects",
  statement="Every array header the encoder writes carries the number of the array's elements, and the decoder reads from it exactly that number (up to the documented cap of 100,000,000), under every delimiter and with every form of key and field list, so that strict mode accepts what the encoder writes.",
  over=["inputs", "configurations"], text="all array lengths up to the cap, all header forms",
  why="A wrong bound or a misread bracket segment shows only for particular lengths or keys.",
  files=["src/encode/primitives.rs", "src/encode/encoders.rs", "src/decode/parser.rs"],
  mech=[("format_header", "src/encode/primitives.rs"), ("parse_bracket_segment / declared length cap", "src/decode/parser.rs")],
  observe=["length in the header read back"],
  technique="abstract interpretation of MIR over regular languages with symbolic lengths",
  note="Lengths above MAX_DECLARED_ARRAY_LENGTH are outside (the decoder refuses them by design)."),
 dict(id="C34", title="The encoder writes every member exactly once, in order, under its parent",
  statement="The encoded text of a value shows the value's structure: every member of an object and every element of an array is written exactly once, in the order of the value, with its own key and its own value (a folded chain standing for the objects it replaces), after its parent's line and before the parent's next sibling, indented exactly one level deeper than the parent; a line of depth d begins with d times the configured indent in spaces. Empty containers are written as such, and nothing else is written.",
  over=["inputs", "configurations"], text="all values of any size, kind and nesting depth, all options",
  why="A member dropped, repeated, moved, or given the wrong depth on one of the many array forms shows only for the particular mix of kinds that takes that form; tests enumerate few.",
  files=["src/encode/encoders.rs", "src/encode/folding.rs"],
  mech=[("one recursive function per array form, appending to one vector of lines", "src/encode/encoders.rs"), ("indented_line / indented_list_item", "src/encode/encoders.rs")],
  observe=["sequence of encoded lines"],
  technique="abstract interpretation of MIR with a focus element: lists are (elements before, one element, elements behind), recursion is cut at the calls and compared with what the form requires (a modular structural induction)",
  note="Text of keys and primitives is C20/C21/C25; the length in headers is C33. Forms that a rewrite makes the analysis unable to follow are undecided, not violations."),
 dict(id="C19", title="Key folding only joins what it can stand for",
  statement="With safe key folding, a folded key is exactly the keys of a chain of single-member objects, in order, joined with dots, at most as many as the flatten depth allows and at least two; every one of them is an identifier; the value written under it is the value the chain leads to (whole, or its remaining members below); it is never folded to the name of a sibling key or to a path the document already holds as a literal dotted key, and never when folding is off.",
  over=["inputs", "configurations"], text="all keys, chains, leaf values, siblings, prefixes and flatten depths",
  why="A chain cut one key early, a dropped remainder or a collision with a sibling shows only for particular chains and depths.",
  files=["src/encode/folding.rs", "src/encode/encoders.rs"],
  mech=[("try_fold_key_chain / collect_single_key_chain", "src/encode/folding.rs"), ("siblings handed on", "src/encode/encoders.rs encode_object_lines")],
  observe=["keys of the encoded lines"],
  technique="abstract interpretation of MIR with symbolic keys, a sibling in focus and free predicates (identifier, equality, membership)",
  note="Chains of up to six keys and flatten depths 0 to 7 (the loop treats every key alike); keys, leaf values and siblings are symbolic. In list items the first key is not among the siblings (as in the reference implementation); see DESIGN.md."),
 dict(id="C16", title="Path expansion is bounded in depth",
  statement="Expanding dotted paths never recurses without bound: however deep the document nests and however many segments a key has, each function of the expansion gives an error (never a silent stop, never a crash) once the depth limit of 256 is reached, and hands a larger depth to everything it calls.",
  over=["inputs"], text="all trees of any depth, dotted keys with any number of segments, all merges",
  why="A stack overflow aborts the process and shows only for documents nested far deeper than any test's.",
  files=["src/decode/expand.rs"],
  mech=[("MAX_EXPAND_DEPTH and the depth parameter of the five mutually recursive functions", "src/decode/expand.rs")],
  observe=["error or result of a decode with path expansion"],
  technique="abstract interpretation of MIR with the recursive calls cut off: a counting obligation per function and call, at the limit and below it",
  note="That 256 frames fit the stack is taken for granted. Recursion in other parts (decoder, builder, encoder) is C28/C29's subject."),
 dict(id="C17", title="Path expansion puts every value where its key says",
  statement="With safe path expansion, a member whose unquoted key has a dot and only identifier segments is put below objects named by those segments, in order, created where missing and reused where present; every other member (no dot, quoted key, a segment that is no identifier) keeps its key as it is. Each member, with its value expanded likewise, is placed exactly once, members of arrays and primitives stay as they are.",
  over=["inputs"], text="all keys, quoting, segment counts, values and trees",
  why="A dropped member, an expanded quoted key or a path that leads into the wrong object shows only for particular keys and orders.",
  files=["src/decode/expand.rs", "src/shared/validation.rs"],
  mech=[("expand_object, insert_path_entries, is_identifier_segment", "src/decode/expand.rs")],
  observe=["decoded value with path expansion"],
  technique="abstract interpretation of MIR with symbolic keys, a member and a segment in focus and free predicates; exact language of is_identifier_segment",
  note="That quoted keys are recorded as such by the decoder is C36's (apply_event). The recursive calls are taken by their own obligations (structural induction)."),
 dict(id="C18", title="Conflicts of expanded paths are decided by strictness",
  statement="When path expansion meets a key that is already there: two objects are merged member by member; any other pair is an error in strict mode, and otherwise the later value replaces the earlier one in its place. The members around it stay unchanged, an error below is passed on, and the strictness reaches every nested step.",
  over=["inputs", "configurations"], text="all pairs of kinds (primitive, array, object), at every level, strict or not",
  why="Each pair of kinds at each of the three places where members meet is a separate path; tests sample a few.",
  files=["src/decode/expand.rs"],
  mech=[("insert_literal_entry, merge_objects, insert_path_entries, find_entry_index", "src/decode/expand.rs")],
  observe=["decoded value or error with path expansion"],
  technique="abstract interpretation of MIR: one obligation per function, pair of kinds and strictness, with symbolic neighbours",
  note="A merge is checked one level deep per function; levels below are its own obligations again (structural induction)."),
 dict(id="C31", title="The replacer sees and decides every value exactly once",
  statement="With a replacer, the encoder asks it once for the root (empty key, empty path) and once for every member and element that remains, parents before children and in order, with that value's own key (the position in decimal for elements), the value and the full path of keys and original positions from the root. The answer, normalised and with its own children replaced likewise, takes the value's place; no answer removes the member or element (the root stays), and everything else stays as it is.",
  over=["inputs"], text="all values, all replacers, every pattern of answers",
  why="Positions after a removal, paths below an answer and the root's special case combine in ways few tests reach.",
  files=["src/encode/replacer.rs"],
  mech=[("apply_replacer / transform_children", "src/encode/replacer.rs")],
  observe=["calls of the replacer", "encoded text"],
  technique="abstract interpretation of MIR with an arbitrary replacer: a free answer at every call, recursion cut off (structural induction); order, keys, paths and results compared as terms",
  note="Containers of three symbolic elements under every pattern of answers (the loops treat elements alike); the values, keys and the path above are symbolic. That the replacer is applied at all is one call in the encoder's entry points."),
 dict(id="C23", title="The CLI's JSON text holds every member once, validly punctuated",
  statement="The JSON text the command line writes for a decoded value has, for every array and object, its opening bracket, every element or member exactly once and in order (a member as its own quoted key, a colon and its value), a comma between two neighbours and nowhere else, and the matching closing bracket; with an indentation every member stands on its own line, indented by its depth, and the closing bracket by one less; empty containers are [] and {}; null, true and false are written as such, and a string in quotes, escaped so that a JSON parser reads the same string back. This holds both for the text written from the event stream and for the text written from a whole value (path expansion). An event stream that does not close what it opens is an error.",
  over=["inputs", "configurations"], text="all values, depths and indentations",
  why="A comma or a line break that is wrong for one combination of kind, position, depth and indentation makes the whole document invalid.",
  files=["src/cli/json_stringify.rs", "src/cli/json_stream.rs"],
  mech=[("stringify_value_to_buf, the array/object writers and push_json_string", "src/cli/json_stringify.rs"), ("json_stream_from_events", "src/cli/json_stream.rs")],
  observe=["standard output or output file of toon --decode"],
  technique="abstract interpretation of MIR with symbolic members, recursion cut off (structural induction); the resulting text compared piece by piece",
  note="Value writer: containers of 0 to 3 members of every mix of kinds, depths 0, 1, 2, 17, indentations 0, 1, 2. Event writer: the events of 131 shapes of values (every pair of kinds side by side, every mix of arrays and objects five levels deep) with symbolic keys and strings. Strings: every control character and representatives of the other classes, alone and next to quotes and backslashes. serde_json (string quoting in the event writer, digits of numbers) is trusted."),
 dict(id="C24", title="Numbers are normalised the same way wherever they enter",
  statement="Of all 64-bit floating-point numbers, NaN and the infinities become null, positive and negative zero become zero without a sign, and every other number stays exactly the number it is; null, booleans and strings are not changed. This holds for normalisation before encoding and for the conversion of numbers into values.",
  over=["inputs"], text="all 64-bit floating-point numbers",
  why="The numbers that matter (subnormal, huge, tiny, negative zero) are rare values among 2^64; tests try a handful.",
  files=["src/encode/normalize.rs", "src/lib.rs"],
  mech=[("normalize_primitive", "src/encode/normalize.rs"), ("StringOrNumberOrBoolOrNull::from_f64", "src/lib.rs")],
  observe=["encoded text, decoded values, values made from numbers"],
  technique="abstract interpretation of MIR on one symbolic number with the facts (finite, zero, ordering against constants) each path learns; each path's result is compared with what its facts allow, a violation names a number that has the facts",
  note="Arithmetic on the number (rounding, casts) is not interpreted; a path whose result is computed is undecided."),
 dict(id="C37", title="Entry points run every stage with the options given",
  statement="Every entry point of the library and the conversions behind the command line apply exactly the options they are given. Decoding reads the lines (the text split at line feeds, nothing else removed), decodes them with the given indent (default 2) and strictness (default on), builds the value and expands paths exactly when expansion is safe, with the same strictness; a failure of any stage is the result. The CLI's JSON is written from the events or, with expansion, from the expanded value, with the indentation given. Encoding normalises the value, applies the replacer exactly when there is one, and encodes with the given indent (default 2), delimiter (default comma), folding (default off) and folding depth (default unlimited); encode is encode_lines joined with line feeds and encode_stream_events the events of the same value; json_to_toon and toon_to_json use the defaults and report failures.",
  over=["inputs", "configurations"], text="all inputs, all combinations of options given and left out, every failure of a stage",
  why="There are hundreds of combinations of options, entry points and failing stages; a stage that loses an option or a default that differs in one entry point shows only for inputs on which that option matters.",
  files=["src/decode/mod.rs", "src/encode/mod.rs", "src/options.rs", "src/cli/conversion.rs", "src/lib.rs", "src/decode/decoders.rs"],
  mech=[("try_decode, try_decode_from_lines, decode, decode_stream_sync", "src/decode/mod.rs"), ("encode, encode_lines, encode_stream_events", "src/encode/mod.rs"), ("resolve_encode_options / resolve_decode_options", "src/options.rs"), ("decode_to_json_chunks, encode_to_toon_lines", "src/cli/conversion.rs"), ("json_to_toon, toon_to_json", "src/lib.rs")],
  observe=["values, events, texts and errors the public functions return"],
  technique="abstract interpretation of MIR with the stages as uninterpreted functions that may fail: the result is compared, as a term, with the composition the rule asks for, for every combination of options",
  note="Option values are a few numbers per option (given / left out); the text splitting is decided on seven texts with the kinds of line ends. The async entry points are not covered."),
 dict(id="C08", title="The event stream of a value is its members in order",
  statement="The event stream produced from a value holds, for every container, one start event (with the array's length), then the events of every member exactly once in order - each preceded by its own key event inside objects - and one end event; a primitive gives one primitive event with that value.",
  over=["inputs"], text="all values of any size and nesting depth",
  why="Order, loss or misattribution of members for particular shapes; tests check few small values.",
  files=["src/encode/mod.rs"],
  mech=[("emit_events, recursive", "src/encode/mod.rs")],
  observe=["sequence of events"],
  technique="abstract interpretation of MIR with a focus element: one obligation per kind of value, for lists of every length (a modular structural induction)",
  note="The grammar of decoder streams is C07."),
 dict(id="C36", title="Tree conversions keep every member, in order, unchanged",
  statement="Normalising a JSON value, turning the decoded tree into a value, and converting between serde_json's values and the library's keep every array element and every object member exactly once, in order, with its own key; strings, booleans and null are unchanged. Building a tree from events does what each event says: a start opens a container, an end closes the innermost one and hands it to its parent (under the pending key in an object, at the end in an array), a key becomes the pending key, a primitive is added likewise; an event that cannot follow is refused.",
  over=["inputs", "histories"], text="all values and all builder states",
  why="A lost, swapped or doubled member, or a state in which an event is taken the wrong way, shows only in particular nestings.",
  files=["src/encode/normalize.rs", "src/decode/event_builder.rs"],
  mech=[("normalize_json_value", "src/encode/normalize.rs"), ("apply_event / node_to_json", "src/decode/event_builder.rs"), ("From<serde_json::Value> for JsonValue and back", "src/lib.rs")],
  observe=["decoded and encoded values"],
  technique="abstract interpretation of MIR with a focus element and symbolic builder stacks: one obligation per kind of value and per pair (state, event)",
  note="Duplicate keys within one object are the subject of the JSON map (last one wins in strict object semantics) and of C18's conflict rules, not of this property."),
]

def na(id, title, statement, text, why, files, mech, reason, over=("inputs",)):
    return dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, reason=reason)


NA = [
 na("C09", "Streaming JSON output equals the JSON of the decoded value",
    "The JSON text written chunk by chunk from decode events, with any indentation, is exactly the JSON rendering of the decoded value, and is always syntactically valid.",
    "all event sequences and indentations", "Commas, line breaks and nesting interact for every shape.", ["src/cli/json_stream.rs", "src/cli/json_stringify.rs"],
    [("chunk generator", "src/cli/json_stream.rs")],
    "C23 decides both JSON writers, per value kind, event and bounded shape, against one specification of the JSON text; what is left of this property is the equality of the number texts each writer delegates to `Display` / serde_json formatting, and the induction over arbitrarily nested words, neither of which a bounded static comparison settles. The order and completeness of the chunks once produced is C35."),
 na("C12", "Blank lines inside an array are rejected exactly in strict mode",
    "In strict mode a blank line between the items of an array is an error; elsewhere blank lines change nothing.",
    "all placements of blank lines", "Placement relative to items, nested headers and the end of the array varies without bound.", ["src/decode/validation.rs", "src/decode/decoders.rs"],
    [("validate_no_blank_lines_in_range", "src/decode/validation.rs")],
    "the rule relates the line numbers of blank lines to the numeric range first..last item line; the line domain keeps consumption, not numeric positions, so `exactly' cannot be bounded without tracking arithmetic on line numbers of unbounded collections."),
 na("C22", "Escaping and unescaping are inverse on all strings",
    "unescape(escape(s)) = s for every string s, escape never emits a raw control character or quote, and unescape fails on every other backslash sequence.",
    "all strings", "Unbounded strings over all of Unicode.", ["src/shared/string_utils.rs"], [("escape_string / unescape_string", "src/shared/string_utils.rs")],
    "the part the system relies on (what is written is read back) is decided as C20 and C21, which run the real unescape over the language the real escape produces; the remaining part (unescape of arbitrary text) would be a second copy of the same analysis with no consumer."),
 na("C27", "The async and batch decoders agree",
    "For every input and every chunking, the async decoder produces the same events, values or failure as the synchronous one.",
    "all inputs and chunkings", "Suspension points fall anywhere in the input.", ["src/decode/async_decode.rs"], [("AsyncDecodeStream", "src/decode/async_decode.rs")],
    "equivalence of a generator-style coroutine (its MIR is a state machine over yields, refused by the interpreters) with a batch function. A genuine disagreement found while reading was fixed (f542787): the stream now replays what the batch decoder gives, so the agreement holds by construction.", over=("inputs", "schedules")),
 na("C28", "Decoding and encoding terminate",
    "Every conversion of a finite input ends.", "all inputs", "Only a particular input loops.", ["src/decode/decoders.rs", "src/decode/parser.rs"], [("scanning loops", "src/decode/decoders.rs")],
    "needs a ranking function for about forty loops, several of which advance by the length of a parsed token through `find' results and slices; the domains here prove consumption of lines (C11) but not a decreasing measure for the in-line scans."),
 na("C29", "No input makes the library panic",
    "No text given to the decoder and no value given to the encoder makes the library panic or overflow the stack.", "all inputs", "One byte offset inside a multi-byte character suffices.",
    ["src/decode/parser.rs", "src/decode/scanner.rs", "src/encode/normalize.rs"], [("string slicing at computed offsets", "src/decode/parser.rs")],
    "about 120 panicking operations (slice bounds, char boundaries, arithmetic) are reachable; char-boundary validity of computed offsets needs a byte-exact string domain (the text domain abstracts non-ASCII letters to one symbol), and stack use of the recursive encoder and decoder depends on input depth, which nothing bounds except in path expansion (C16). A sound check would raise alarms on correct code."),
 na("C30", "Errors name the line they are about",
    "Every decode error that carries a line number carries that of the offending line.", "all malformed inputs", "Each error site has its own idea of the current line.", ["src/decode/scanner.rs", "src/error.rs"], [("line_number fields", "src/decode/scanner.rs")],
    "which line is `the offending one' has no independent statement in the code or its documentation to compare with; a static rule could only restate each call site."),
]
