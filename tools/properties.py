MC = "explicit-state model checking: exhaustive bounded exploration of the real formatter"
TODO = None

p("C01", "Formatting always produces output",
  "For every UTF-8 document and every configuration (any line width or none, reflow on or off), formatting finishes and returns a document: it never panics, never reports an error and never loops. The same holds for formatting any document it returned.",
  "inputs configurations", "all documents, all configurations",
  "The tests format some 1400 sample documents; a slice at a wrong offset or an unmatched state only shows on particular mixtures of constructs that no sample contains.",
  "src/formatter.rs src/links.rs src/header.rs src/table.rs src/paragraph.rs src/list.rs src/footnote.rs",
  ["slicing of the source between parser events @ src/formatter.rs", "definition recovery scanner @ src/links.rs"],
  MC + ", no-panic/no-error/no-hang monitor on every state",
  "Every document of the listed worlds, exhaustively; says nothing about documents outside their alphabets and lengths.")

p("C02", "Formatting is idempotent",
  "Formatting a document that the formatter produced, with the same configuration, returns it unchanged, so running the tool twice is the same as running it once.",
  "inputs configurations", "all documents, all configurations; with reflow see C11",
  "The tests check idempotence for the sample documents only; the property is about what every output parses back to.",
  "src/formatter.rs src/escape.rs src/writer.rs src/links.rs src/list.rs",
  ["escaping so that the output is parsed the way it was written @ src/escape.rs", "preservation of blank lines and indentation @ src/formatter.rs"],
  MC + ", every reached state must be a fixed point of the transition",
  "Exhaustive within the worlds; known exceptions are listed in known-findings.txt.")

p("C03", "Formatting preserves meaning",
  "A document and its formatted version render to the same content: the same tree of blocks and inline markup with the same text, code, destinations, titles, numbers and attributes, up to white space that Markdown ignores. Nothing is lost, added, reordered or turned into another construct.",
  "inputs", "all documents",
  "The tests compare outputs with recorded outputs; that no construct is lost or re-read as another has to hold for every combination of neighbouring and nested constructs.",
  "src/formatter.rs src/escape.rs src/writer.rs src/links.rs src/list.rs src/html.rs src/footnote.rs src/header.rs",
  ["event-by-event rewriting @ src/formatter.rs", "escaping @ src/escape.rs"],
  MC + ", canonical rendering of source and output compared on every transition",
  "The oracle is a canonical form built from pulldown-cmark's events with its own option set; the parser is trusted.")

p("C04", "Link reference definitions survive",
  "Every link reference definition of the source is present in the output with the same label, destination and title, wherever it stands (at the top, between blocks, in lists, quotes and footnotes), and no definition appears that was not there.",
  "inputs", "all documents with link reference definitions",
  "The parser emits no event for definitions, so the formatter recovers them from the gaps between events; tests sample a few placements.",
  "src/links.rs src/formatter.rs",
  ["parse_link_reference_definitions @ src/links.rs", "rewrite_reference_link_definitions @ src/formatter.rs"],
  MC + ", definition maps of source and output compared on every transition",
  "The definition map is pulldown-cmark's own; exhaustive within the worlds.")

p("C05", "Code blocks keep their content, fences and info strings",
  "Without a code formatter, every code block comes out with the code it went in with (blank lines at most lose white space; the blank lines at the end of a block go, and the end of indented code is trimmed), at any nesting depth: a fenced block keeps its fence, closing fence and info string, an indented block stays indented code, and the code's own indentation relative to the block is unchanged.",
  "inputs", "all code blocks, in all containers",
  "The code's lines are re-indented for the containers around them; whether a line's own spaces, markers or fence-like text survive depends on all combinations.",
  "src/formatter.rs src/writer.rs src/builder.rs",
  ["CodeBlock writer and join_with_indentation @ src/formatter.rs"], MC + ", output compared with an independent reference printer on every transition; projections of source and output compared on raw token sequences",
  "All trees of code blocks up to the stated shape in all container stacks; all token sequences of the stated lengths.")

p("C06", "The code block formatter gets each block once, with its context",
  "A user-supplied code formatter is called exactly once, in document order, for every fenced code block that is not Markdown, with the block's info string, its exact code, the indentation its container gives it and the configured line width; what it returns replaces the code between the fences. It is never called for indented code.",
  "inputs configurations", "all documents with code blocks, all nestings, all answers of the callback",
  "Tests use a handful of documents with one or two callbacks; the context depends on the whole container stack.",
  "src/formatter.rs src/builder.rs",
  ["format_code_buffer @ src/formatter.rs", "FormatBuilder::with_code_block_formatter @ src/builder.rs"], MC + ", calls of an instrumented code formatter compared with the calls derived from the parse of the document, for six answering policies on every state",
  "Documents whose code blocks are not the same blocks in the plain output are left out here (C05 decides them); answers are compared with the code of the output's blocks.",
  ("calls of the closure given to FormatBuilder::with_code_block_formatter", "the returned string"))

p("C07", "Markdown code blocks are formatted like documents of their own",
  "A fenced code block whose info string contains `markdown` is replaced by what formatting its content as a document gives, with the configured line width reduced by the indentation of the containers around it, at any nesting depth. The line width is back to its configured value for everything after it.",
  "inputs configurations", "all documents with nested Markdown, all widths",
  "The formatter calls itself recursively and changes its own configuration meanwhile; tests nest one level.",
  "src/formatter.rs",
  ["recursion in format_code_buffer @ src/formatter.rs", "RestoreMaxWidth @ src/formatter.rs"], MC + ", every transition compared with a by-hand formatting of the nested blocks by separate formatters",
  "All nestings of the listed documents in all container stacks to the stated depth, at several widths.")

p("C08", "A formatter can be reused: results do not depend on history",
  "The result of formatting a document depends only on the document and the configuration the formatter was built with: formatting the same document again with the same formatter, after any number of other documents, nested formats, or code formatters that panicked, or with another formatter of the same configuration, gives the same result.",
  "histories", "all sequences of operations on builders and formatters",
  "Tests build a fresh formatter for each document.",
  "src/formatter.rs src/builder.rs src/config.rs",
  ["configuration in a shared cell that formatting modifies @ src/formatter.rs"], MC + ", all operation histories on three live formatters (formatting, panicking code formatters, re-entrant use, replacement) up to a depth, every step compared with a fresh formatter",
  "Depth 3 on three formatters and 5 on one (thorough: 4 and 6).")

p("C09", "Wrapped paragraphs keep within the maximum width",
  "With a maximum width, every output line of a paragraph, including the markers and indentation of its containers, is at most that wide in display columns, unless it consists of a single unbreakable unit or breaking it would change its meaning; and with reflow a line is not broken earlier than it has to be. Lines are broken at spaces only.",
  "inputs configurations", "all paragraphs, all containers, all widths",
  "Tests check outputs for a few texts and widths; off-by-one errors in the accounting for containers and wide characters appear at particular widths only.",
  "src/paragraph.rs src/formatter.rs",
  ["textwrap with the width left by the containers @ src/paragraph.rs"], MC + ", output compared with a reference first-fit filler at every width, in every container stack, and the bound monitored on every sequence of markup-like words",
  "Plain words: exact filling. Markup-like words: the bound, with words that could start a block, and what precedes them, allowed to stay together.")

p("C10", "Without a maximum width, and where lines fit, nothing is wrapped",
  "Line breaks of paragraphs are preserved when no maximum width is set, and also with one as long as every line fits and reflow is off: such documents are formatted the same with and without a maximum width. With reflow, the result does not depend on where the paragraph's lines were broken in the source (as long as the breaks do not put markup-like text at the start of a line, where it needs an escape).",
  "inputs configurations", "all documents, all widths not smaller than their lines",
  "Tests check a few documents with one width.",
  "src/paragraph.rs src/builder.rs src/config.rs", ["Paragraph writer @ src/paragraph.rs"], MC + ", relation between the transitions with and without a width on every state; all placements of the source's line breaks compared under reflow",
  "Widths from exactly what the unwrapped output needs; line breaks that change the parse or need an escape are left out.")

p("C11", "Wrapping and reflowing preserve meaning and are stable",
  "Wrapping or reflowing text at any width does not change what the document means: a line break is never put where the text after it would become a list item, heading, quote, table or other construct, hard breaks stay, and only paragraphs are affected. Formatting the wrapped document again with the same width changes nothing (with reflow: if words are separated by single spaces).",
  "inputs configurations", "all documents, all widths",
  "Whether a word may start a line depends on the word and the width; tests sample a few.",
  "src/paragraph.rs src/formatter.rs", ["Paragraph writer @ src/paragraph.rs"], MC + ", canonical rendering of source and output, fixed point, and the spelling of everything but paragraphs compared on every transition with a width",
  "Stability under reflow is claimed for text with single spaces between words; a few spellings with known defects are left out (DESIGN.md).")

p("C12", "Lists keep their markers, numbers, tightness and nesting",
  "Every list comes out with the same marker characters, numbers (as written, including leading zeros and the delimiter), task markers, items and nesting, one space after each marker, and the contents of an item aligned with the text after its marker; a tight list stays tight and a loose list loose.",
  "inputs", "all lists",
  "Marker widths, start numbers and nesting interact with the indentation of everything inside an item; tests sample some.",
  "src/list.rs src/formatter.rs", ["ListMarker @ src/list.rs"], MC + ", output compared with an independent reference printer on every transition; projections of source and output compared on raw token sequences",
  "All list trees up to the stated shape with every marker style; all token sequences of the stated lengths.")

p("C13", "Headings keep level, style, text and attributes",
  "Every heading keeps its level, its style (ATX or underlined), its inline text and its attributes (id, classes, key-value pairs, in that order); an ATX heading comes out as its marker, one space and its text without a closing sequence, an underlined one with its underline as written.",
  "inputs", "all headings",
  "Closing sequences, escapes and attribute blocks interact; tests sample some of the combinations.",
  "src/header.rs src/formatter.rs", ["Header writer @ src/header.rs"], MC + ", output compared with an independent reference printer on every transition; projections of source and output compared on raw token sequences",
  "All heading texts, attribute sets, underlines and closing sequences of the lists; all token sequences of the stated lengths.")

p("C14", "Tables keep their cells and alignments and come out aligned",
  "Every table comes out with the same columns, alignments, rows and cell contents, with outer pipes, each column padded with spaces to the display width of its widest cell (at least three), and a delimiter row whose colons state the alignments.",
  "inputs", "all tables",
  "Width computations depend on Unicode display widths, escapes and missing cells in any combination.",
  "src/table.rs src/formatter.rs", ["TableState @ src/table.rs"], MC + ", output compared with an independent reference printer on every transition; projections of source and output compared on raw token sequences",
  "All tables up to the stated shape; all token sequences of the stated lengths.")

p("C15", "Blank lines between blocks are preserved",
  "Between consecutive blocks the output has as many blank lines as the source, at every nesting level and for every pair of kinds of blocks; blank lines before the first block are dropped.",
  "inputs", "all pairs of adjacent blocks, all containers, all numbers of blank lines",
  "The count is reconstructed from the source between two parser events, which depends on the kinds of both blocks and on the containers.",
  "src/formatter.rs", ["count_newlines and write_newlines @ src/formatter.rs"], MC + ", output compared with an independent reference printer on every transition",
  "All pairs and triples of the listed blocks with all gaps up to the bound, in all container stacks up to the bound.")

p("C16", "Output white space is clean",
  "The output ends with exactly one newline if the source has one after its last visible character and with none otherwise; it does not start with blank lines; apart from code, HTML, metadata and hard breaks no line ends with white space, and blank lines hold nothing but the markers of quotes.",
  "inputs configurations", "all documents",
  "White space is written by every writer for its own reasons; tests sample.",
  "src/formatter.rs src/paragraph.rs", ["write_newlines_inner, write_indentation @ src/formatter.rs"], MC + ", white space of every reached output monitored line by line, with the source and the parser's ranges as the oracle",
  "All documents of the worlds; code, HTML, metadata and the text of inline code and tags are exempt, as the statement says.")

p("C17", "Line ending style does not matter",
  "A document written with Windows line endings, or with a mixture of Windows and Unix line endings, is formatted to exactly the same output as the same document written with Unix line endings.",
  "inputs", "all documents",
  "The tests contain almost no carriage returns, while the formatter looks for line ends in the source in dozens of places.",
  "src/utils.rs src/formatter.rs src/links.rs src/paragraph.rs", ["split_lines, count_newlines @ src/utils.rs"], MC + ", relation between the transitions of a document with LF and with every assignment of LF and CRLF to its line ends (up to four line ends; all CRLF beyond), compared on every state",
  "Outputs must be identical. Lone carriage returns are not line endings here.")

p("C18", "Links and images keep text, destination, title and kind",
  "Every inline, reference, collapsed, shortcut and automatic link and every image keeps its kind, its text, its destination, its label and its title, with every escape, bracket and quote in them, at any nesting depth and on any number of lines; only white space around the parts is normalised and line breaks in a text become spaces.",
  "inputs", "all links and images",
  "The formatter takes destinations and titles from the source text with its own scanner; tests sample the syntax.",
  "src/links.rs src/formatter.rs", ["find_inline_url_and_title, find_reference_link_label @ src/links.rs", "write_inline_link @ src/formatter.rs"], MC + ", output compared with an independent reference spelling on every transition; projections of source and output compared on raw token sequences",
  "All combinations of the listed texts, destinations, titles, labels and layouts in all listed containers; all token sequences of the stated lengths.")

p("C19", "Formatting commutes with nesting",
  "Putting a document into a block quote, a list item or a footnote definition and formatting it gives the same as formatting the document first and putting the result into the container: the contents of a container are formatted as if they stood alone, only prefixed.",
  "inputs", "all documents, all stacks of containers",
  "This relates two runs on different inputs for every document and every container; a test fixes one.",
  "src/formatter.rs", ["indentation stack @ src/formatter.rs"], MC + ", relation between the transitions of a document alone and of the same document in every container stack, checked on every state",
  "Documents the parser reads differently inside of the container are left out (decided by comparing parse events); all stacks of two of eight containers.")

p("C20", "Formatting is local: independent parts do not affect each other",
  "If a document consists of parts separated by blank lines that do not interact (no part continues or refers to another), formatting the whole gives the formatted parts separated by the same blank lines, in the same order, however many parts there are.",
  "inputs", "all sequences of independent blocks",
  "State that leaks from one block to a later one shows only for particular sequences of blocks.",
  "src/formatter.rs src/links.rs src/table.rs", ["per-block state reset in FormatState @ src/formatter.rs"], MC + ", relation between the transition of a document and those of its parts, checked at every blank line of every state",
  "Parts that interact are left out (decided by comparing parse events and definitions); up to five parts from block lists, raw lines and token sequences.")

p("C21", "HTML and metadata blocks are passed through",
  "HTML blocks, inline HTML and metadata blocks come out with the same lines in the same order with the same text; at the top level metadata blocks are unchanged and HTML blocks lose at most white space at the ends of their lines.",
  "inputs", "all HTML and metadata blocks",
  "Every kind of HTML block, in every container, on every line; tests sample.",
  "src/formatter.rs src/html.rs", ["Event::Html @ src/formatter.rs", "could_be_interpreted_as_html @ src/formatter.rs"], MC + ", output compared with an independent reference printer on every transition; projections of source and output compared on raw token sequences",
  "All HTML and metadata blocks of the lists in all container stacks; all token sequences of the stated lengths.")

p("C22", "Footnotes keep labels and bodies",
  "Every footnote reference and definition keeps its label; the body of a definition keeps all its blocks, in order, indented under the definition so that they still belong to it and nothing that follows it does.",
  "inputs", "all footnotes",
  "Bodies may hold any block; lazy continuations and nesting decide what belongs to a body. Tests sample.",
  "src/footnote.rs src/formatter.rs", ["FootnoteDefinition writer @ src/footnote.rs"], MC + ", output compared with an independent reference printer on every transition; projections of source and output compared on raw token sequences",
  "All footnote trees up to the stated shape; all token sequences of the stated lengths.")

p("C23", "The command line tool does what the library does, and writes safely",
  "The command line tool prints, or writes back to the file, exactly what the library returns for the file's content with the given options; with --stdout, and whenever it fails, the file is left untouched; it exits with an error and a message exactly when it could not do its work.",
  "inputs configurations fault_sequences", "all option combinations, all file states, all input files",
  "There are no tests of the command line tool.",
  "src/main.rs", ["main @ src/main.rs"], MC + ", the real binary run on every command line, file state and document in the bounds, and on every sequence of kernel answers with a bounded number of unusual ones",
  "Files and kernel answers come from a stand-in between binary and kernel (LD_PRELOAD) in a scratch directory. 2 unusual answers (short or interrupted calls, errors) per run (thorough: 3). That a write that fails after the file was emptied loses the text is a known finding.", ("stdout, exit status and file content of the markdown-fmt binary",))

p("C24", "The layout of the output is canonical",
  "The output is determined by the document's structure, its text and the number of blank lines between its blocks, not by how it was laid out: leading and trailing spaces, spaces around markers, lazy continuation lines, closing hashes, table padding and white space on blank lines all lead to the same output.",
  "inputs", "all structures, all ways to lay them out",
  "For one structure there are thousands of layouts; tests contain a few of each.",
  "src/formatter.rs src/list.rs src/table.rs src/footnote.rs src/header.rs src/paragraph.rs",
  ["all writers @ src/formatter.rs"],
  MC + ", output compared with an independent reference printer on every transition",
  "The reference printer (mc/src/ast.rs) states the layout; all trees up to the stated shape times all layouts with at most two deviations from the canonical one.")

p("C25", "Builder options are independent, order-free and last-write-wins",
  "A formatter built by a builder behaves according to the last value given for each option, whatever the order and number of calls, and options do not affect each other; formatters built by different builders are independent.",
  "histories configurations", "all sequences of builder calls",
  "Tests set one or two options once.",
  "src/builder.rs src/config.rs", ["FormatBuilder @ src/builder.rs"], MC + ", all sequences of builder calls on two builders up to a depth, each built formatter compared with an option model on a probe document",
  "Depth 5 on one builder and 4 on two (thorough: 6 and 5); all settings of one and two widths from 0 to 36 (60) and around every power of two up to the largest, with and without reflow before, between and after.")

p("C26", "Words are opaque to the formatter",
  "Replacing the words of a document by other words of the same display width and kind (other letters, accented letters, other scripts of the same width) leaves the output the same but for that replacement: what a word says does not influence the formatting.",
  "inputs", "all documents, all renamings of words",
  "This relates runs on different inputs; tests use one spelling for each text. Byte lengths, character counts and display widths coincide in ASCII tests.",
  "src/formatter.rs src/table.rs src/paragraph.rs src/links.rs", ["offset arithmetic throughout @ src/formatter.rs"], MC + ", relation between the transitions of a document and of its renamings by five letter maps of one to four bytes, compared on every state",
  "Letters that belong to syntax (HTML, entities, task markers, one-byte heading attributes, which the parser drops) are left out.")

p("C27", "Inline markup and escapes keep their spelling",
  "Emphasis, strong emphasis, strikethrough, code spans, entities, escapes and hard breaks come out spelled as they were written: the same delimiter characters, the same number of backticks, the same entity text, a backslash or two spaces for a hard break; text that is not at risk of being read as markup gets no escapes.",
  "inputs", "all inline content",
  "The parser reports resolved markup, so spellings are recovered from the source; tests sample.",
  "src/formatter.rs src/escape.rs", ["rewrite_marker @ src/formatter.rs", "needs_escape @ src/escape.rs"], MC + ", output compared with an independent reference spelling on every transition; projections of source and output compared on raw token sequences",
  "All pairs (thorough: triples) of the listed inline atoms in all listed places; all token sequences of the stated lengths.")

p("C28", "All entry points and settings that mean the same agree",
  "A document comes out the same whichever public way it is formatted: `rewrite_markdown`, `rewrite_markdown_with_builder` and a formatter built by hand give the same result for the same options, with or without a code formatter. A code formatter that returns the code it was given changes nothing, turning reflow on without a line width changes nothing, and using the same formatter again gives the same result.",
  "inputs configurations", "all documents, all configurations",
  "The tests go through one entry point each; that several paths through the library agree is a relation between runs on every document.",
  "src/lib.rs src/builder.rs src/config.rs src/formatter.rs",
  ["rewrite_markdown, rewrite_markdown_with_builder @ src/lib.rs", "FormatBuilder @ src/builder.rs", "code block path @ src/formatter.rs"],
  MC + ", every path through the public interface taken from the same state and the reached states compared",
  "All token sequences, lines and leaf pairs of the stated bounds with four settings.",
  ("the results of rewrite_markdown, rewrite_markdown_with_builder and MarkdownFormatter::format",))
