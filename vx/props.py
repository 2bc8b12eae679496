"""what is claimed: one entry per property.
verus / kani: the units whose obligations decide it; probe: the bounded search that looks for a failing input.
`python3 -m vx.mk` writes properties.jsonl and MANIFEST.json from this table."""
PROPS = {
    "C01": {
        "verus": ["lexer"], "probe": ["lexer"],
        "title": "Tokenizing is lossless and total",
        "statement": "The tokens read from a document, put together, are exactly the bytes of the document and of every file "
                     "included into it, in reading order, each token located at the bytes it holds, none empty, and the end is "
                     "reported exactly when no text is left. A token's text fits its kind: delimiter lines are recognised exactly "
                     "where a line is one, character references exactly where the text is one, runs are maximal.",
        "over": ["inputs", "histories"],
        "quant": "every valid UTF-8 source, every nesting of included sources, every point at which tokens, lines or look-ahead are taken",
        "why": "The tests tokenize a few dozen hand-written snippets; the claim quantifies over all byte strings and include nestings, "
               "where off-by-one slices (multi-byte characters, CRLF, text ending in the middle of a run) hide.",
        "files": ["parser/src/lexer/source_lexer.rs", "parser/src/lexer/root_lexer.rs", "parser/src/token.rs"],
        "mech": [("byte-level tokenizer", "parser/src/lexer/source_lexer.rs SourceLexer::next_token and helpers"),
                 ("source stack for includes", "parser/src/lexer/root_lexer.rs RootLexer::next_token, push_source, maybe_advance_source")],
        "note": "All 56 tokenizer functions are extracted from the source on every run and verified for all inputs up to 4 GB; trusted: "
                "std slice/str models, bumpalo strings as byte sequences, the plug-in name lookup. Bounded search runs the compiled lexer.",
    },
    "C02": {
        "verus": ["lines"], "probe": ["lines"],
        "title": "Positions and diagnostics name the right file, line and column",
        "statement": "For every position in a document or included file, the reported line number, column and quoted line are those of "
                     "that byte in the file that holds it. A diagnostic names that file and underlines text within the quoted line, also "
                     "for text embedded in a conditional directive and inside table cells' own text.",
        "over": ["inputs", "histories"],
        "quant": "every source text, position and include nesting",
        "why": "Tests check a fixed set of messages; the mapping has to be right for every byte position of every source in the stack.",
        "files": ["parser/src/lexer/source_lexer.rs", "parser/src/lexer/root_lexer.rs", "parser/src/diagnostic.rs"],
        "mech": [("line and column of a position", "parser/src/lexer/source_lexer.rs line_of, line_number_with_offset"),
                 ("routing by source index", "parser/src/lexer/root_lexer.rs"), ("diagnostic construction", "parser/src/diagnostic.rs err_*")],
        "note": "Line/column functions and every diagnostic constructor are under contract; that a call site hands in the location of the "
                "text it complains about is searched, not proved.",
    },
    "C03": {
        "verus": ["subs"], "kani": ["subs"], "probe": ["subs"],
        "title": "Substitution lists behave as ordered sets",
        "statement": "The substitutions of a block are an ordered list without repetitions, and asking whether one applies agrees with the "
                     "list. A `subs` value is applied part by part: a sign-free list replaces the block's own, `+x`, `x+` and `-x` add at the "
                     "end, move to the front and take out, for every name and group, and unknown parts change nothing.",
        "over": ["inputs", "histories"],
        "quant": "every reachable list, every operation sequence and every `subs` attribute value",
        "why": "Tests try seven attribute values and a handful of lists; the invariant must survive any sequence of edits.",
        "files": ["parser/src/substitutions.rs", "parser/src/tasks/customize_subs.rs"],
        "mech": [("list with bit flags", "parser/src/substitutions.rs insert/remove/prepend/append"),
                 ("attribute interpretation", "parser/src/tasks/customize_subs.rs from_meta")],
        "note": "Verus proves the list operations, the constants, the name table and the whole attribute interpretation; Kani re-proves the "
                "list operations bit-precisely on the included module. Trusted: str::split/contains/len models, the attribute lookup.",
    },
    "C04": {
        "verus": ["base64"], "probe": ["base64"],
        "title": "Embedded files survive data-URI encoding byte for byte",
        "statement": "Decoding the base64 text the converter embeds yields exactly the bytes of the embedded file, for every file, with the "
                     "standard alphabet and padding.",
        "over": ["inputs"],
        "quant": "every byte string",
        "why": "Tests encode nine strings; an error in one bit position or padding case shows only for particular bytes and lengths.",
        "files": ["parser/src/base64.rs"],
        "mech": [("encoder", "parser/src/base64.rs encode_in")],
        "note": "The encoder is proved equal to a reference whose decoding is proved to be its inverse, for all inputs.",
    },
    "C05": {
        "verus": ["meta"], "probe": ["meta", "args"],
        "title": "Attribute precedence and locking",
        "statement": "An attribute's value in force is the locked job-level one if there is one, else what the document body, then the header "
                     "says, else the job's soft-set value, else the built-in default, after any sequence of assignments. Nothing a document "
                     "contains changes a locked, job-only or (in the body) header-only attribute or its document type once locked; a cell starts from "
                     "its document's attributes. Command line values are read in full or refused.",
        "over": ["inputs", "histories", "configurations"],
        "quant": "every set of job attributes, safe mode and document type, every sequence of header and body assignments, every attribute name and value",
        "why": "Tests set one or two attributes; precedence and locking must hold for every name after every history of assignments, also "
               "through nested cells and included files.",
        "files": ["core/src/document_meta.rs", "core/src/attrs.rs", "core/src/job_attrs.rs", "core/src/job_settings.rs", "core/src/validate.rs",
                  "parser/src/parser.rs", "cli/src/args.rs"],
        "mech": [("attribute lookup and assignment", "core/src/document_meta.rs get, insert_header_attr, insert_doc_attr, clone_for_cell"),
                 ("validation", "core/src/validate.rs attr"), ("job settings", "core/src/job_settings.rs From<JobSettings> for DocumentMeta"),
                 ("command line", "cli/src/args.rs parse_attr")],
        "note": "58 functions from lookup to the command line reader are under contract, with theorems over all assignment histories. Trusted: HashMap "
                "as a finite map, the attribute regex (searched), str::parse. That the header and body parsers call the right assignment is searched.",
    },
    "C06": {
        "verus": ["safe"], "probe": ["safe", "cliread"],
        "title": "Safe mode governs what a document can make the processor read",
        "statement": "In secure mode a document reads nothing: an include becomes a link, images and docinfo are not read. Below it, contents of a URL are read "
                     "only with allow-uri-read, wherever the scheme comes from, and except in unsafe mode only files that really lie under the base "
                     "directory (for a stylesheet the working directory), links resolved. Includes nest no deeper than the maximum, and what is permitted is read.",
        "over": ["inputs", "configurations", "programs"],
        "quant": "every document, safe mode, set of job attributes, include target and directory layout, every nesting of includes",
        "why": "Tests try a dozen targets; targets come together from attributes, directories and nested files, and one unguarded way of reading is enough.",
        "files": ["parser/src/tasks/directives/includes/process_includes.rs", "parser/src/tasks/directives/includes/target.rs", "parser/src/tasks/parse_image_block.rs",
                  "parser/src/docinfo.rs", "parser/src/root_lexer.rs", "core/src/path.rs", "core/src/document_meta.rs", "cli/src/resolver.rs", "cli/src/css.rs"],
        "mech": [("include directives", "parser/src/tasks/directives/includes/process_includes.rs try_process_include_directive, target.rs prepare"),
                 ("images", "parser/src/tasks/parse_image_block.rs get_image_bytes, should_resolve_as_inline_svg"), ("docinfo", "parser/src/docinfo.rs read_docinfo"),
                 ("files and stylesheets", "cli/src/resolver.rs resolve_filepath, cli/src/css.rs resolve"), ("depth", "parser/src/root_lexer.rs max_include_depth")],
        "note": "The policy is the precondition of the four reading operations, so each of the 38 functions on the way to one carries proof obligations. Trusted: the "
                "URI regexes, canonicalize and File::open as the file system, no change to the tree between check and read. Other resolvers than the command line tool's get the mode passed on.",
    },
    "C07": {
        "verus": ["escape"], "probe": ["escape"],
        "title": "Document text never turns into markup",
        "statement": "Wherever a document can put text (paragraphs, titles, cells, listings, attribute values, link targets, ids, roles, header metadata), the characters <, > and & "
                     "reach the HTML as character references, a numeric reference of running text as itself, and a quote inside an attribute value as a reference too. Outside passthroughs, "
                     "every tag and every attribute in the output is therefore one the processor wrote, in both HTML back ends.",
        "over": ["inputs", "configurations"],
        "quant": "every text at every place of a document that takes text, both HTML back ends, all document attributes the back ends print",
        "why": "Tests show a few texts at a few places; one place in some hundred that writes its text raw, or a quote, ampersand or angle bracket in an unusual neighbourhood, goes unseen.",
        "files": ["backend/src/html/htmlbuf.rs", "backend/src/html/open_tag.rs", "backend/src/html/backend.rs", "dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs"],
        "mech": [("escaping", "backend/src/html/htmlbuf.rs push_escaped, push_url_encoded, push_html_attr*"), ("tags", "backend/src/html/open_tag.rs OpenTag"),
                 ("call sites", "dr-html-backend/src/asciidoctor_html.rs, backend-html5s/src/html5s.rs, backend/src/html/*.rs")],
        "note": "The escaper is proved equal to a functional specification and to keep an HTML tokenizer's state for every text; every tag writer method is proved to keep the "
                "tokenizer inside the tag. That each of the back ends' call sites uses them is searched: some 170 places times hostile texts, attributes in the output checked one by one.",
    },
    "C10": {
        "verus": ["number"], "probe": ["number"],
        "title": "Section, appendix, part and caption numbers count the document",
        "statement": "With section numbering on, every heading carries the next number of its level below its parent's number, appendices and parts carry the next letter and "
                     "roman numeral, and numbering after an appendix goes on where it was; titled tables, figures, examples and listings carry the next number of their kind, in table "
                     "cells too. A table of contents, wherever it is placed, lists every section down to its depth in document order with the number of its heading, and changes no number.",
        "over": ["inputs", "configurations"],
        "quant": "every outline of an article or book, every placement of parts, appendices, special sections, table of contents and captioned blocks, every setting of the numbering attributes, both back ends",
        "why": "Numbers depend on all that precedes them: counters saved, reset and resumed over arbitrary nestings. Tests show a few short outlines.",
        "files": ["backend/src/html/backend.rs", "dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs", "parser/src/tasks/parse_section.rs", "parser/src/tasks/parse_book.rs"],
        "mech": [("section numbers", "backend/src/html/backend.rs push_section_number_prefix, should_number_section, enter_appendix"),
                 ("table of contents", "backend/src/html/backend.rs on_toc_enter, on_toc_exit, enter_toc_node; parser/src/tasks/parse_section.rs push_toc_node"),
                 ("captions", "render_block_title in dr-html-backend/src/asciidoctor_html.rs and backend-html5s/src/html5s.rs")],
        "note": "All numbering functions are under contract against one step function shared by headings and table of contents; theorems: numbers increase, letters differ, a table "
                "of contents leaves the numbering as it found it. Order and nesting of the visits and the outline the parser builds are searched. Fewer than 2^32 sections assumed; roman numerals trusted.",
    },
    "C16": {
        "verus": ["ids"], "probe": ["ids"],
        "title": "Ids are unique and cross references lead to them and read right",
        "statement": "No id is written twice or empty: a section's generated id is the text of its title, lower-cased with separators between words, numbered when that id is "
                     "taken, and an id given twice is reported. Everything given an id bears it, and a cross reference links to it, reading as its own text, else the target's "
                     "reference text, else its title; text quoted in a reference or the table of contents repeats no ids, notes or links. In strict mode a document converts only when every reference's target exists.",
        "over": ["inputs", "configurations"],
        "quant": "every document: titles, explicit and inline ids on every kind of block and span, in any order and nesting, every idprefix and idseparator, references before and after their targets, both back ends",
        "why": "Whether an id is free or a reference resolves depends on the whole document. Tests name a few ids in single blocks.",
        "files": ["parser/src/tasks/section_id.rs", "parser/src/tasks/anchors.rs", "parser/src/tasks/diagnose_document.rs", "parser/src/tasks/parse_inlines/mod.rs",
                  "backend/src/utils.rs", "backend/src/html/htmlbuf.rs", "eval/src/eval.rs", "core/src/file.rs"],
        "mech": [("generated ids", "parser/src/tasks/section_id.rs _autogen_sect_id, sequence_sectid"),
                 ("registered ids", "parser/src/tasks/anchors.rs insert_anchor, insert_block_anchor"),
                 ("unresolved references", "parser/src/tasks/diagnose_document.rs diagnose_invalid_xrefs, target_data"),
                 ("links", "backend/src/utils.rs xref::href, xref::get_id"),
                 ("quoted text", "eval/src/eval.rs eval_inline; backend/src/html/htmlbuf.rs AltHtmlBuf")],
        "note": "Generation, registration, diagnosis, links, file names and the buffers are under contract; theorems: a generated id is new and not empty, a link within the document "
                "leads to the id its text is taken from. Trusted: the two regexes, hash maps, number formatting, character classes. Fewer than 2^31 ids assumed. The texts the evaluator prints are searched.",
    },
    "C21": {
        "verus": ["inlines"], "probe": ["verbatim"],
        "title": "Only the substitutions asked for are made, and verbatim text stays as written",
        "statement": "The text of listing, literal, source and passthrough blocks and of inline passthroughs reaches the output character for character and line by line, its special characters escaped "
                     "unless it is passed through raw. Nothing in it is taken for formatting, a macro, a reference, a replacement, a comment, an attribute entry or the end of the block; "
                     "a block's substitution list turns on exactly the constructs it names.",
        "over": ["inputs", "configurations"],
        "quant": "every text of every verbatim or passthrough block and inline passthrough, wherever it stands (lists, cells, nested blocks), every substitution list, both back ends",
        "why": "Each of some sixty constructs the inline parser knows has its own condition; a test shows that one of them is left alone in one kind of block.",
        "files": ["parser/src/tasks/parse_inlines/mod.rs", "parser/src/tasks/parse_inlines/inline_utils.rs", "parser/src/tasks/parse_inlines/inline_preproc.rs", "parser/src/parse_context.rs",
                  "parser/src/tasks/customize_subs.rs", "parser/src/substitutions.rs", "parser/src/tasks/attr_refs.rs", "parser/src/line.rs"],
        "mech": [("constructs and the substitution each is part of", "parser/src/tasks/parse_inlines/mod.rs parse_inlines_until"),
                 ("substitutions of a block", "parser/src/parse_context.rs set_subs_for; parser/src/substitutions.rs"),
                 ("passthroughs", "parser/src/tasks/parse_inlines/inline_preproc.rs; inline_utils.rs from_pass_plus_len"),
                 ("references read before the block is known", "parser/src/tasks/attr_refs.rs; parser/src/line.rs remove_resolved_attr_refs")],
        "note": "The inline parser is under contract as its control flow, cut mechanically (branches, guards and jumps kept; conditions on anything but the substitutions and the token kind unconstrained): every "
                "construct only behind its substitution, no special character as raw text. Block substitutions, list accessors and escapes are under contract in full. The text itself is searched.",
    },
    "C17": {
        "verus": ["blocks"], "probe": ["blocks"],
        "title": "Every block is in the output once, in order, nested as it was written",
        "statement": "Every paragraph, list item, term and block of a document is in the output exactly once, in the order of the source, and inside exactly the lists, items and delimited blocks it was written in. "
                     "An item is of the innermost open list of its marker's kind and length, a new marker starts a nested list, what a `+` attaches is its item's, and a block ends where its own delimiter is. "
                     "Comments, however placed, change none of this, and no text is lost or repeated.",
        "over": ["inputs"],
        "quant": "every nesting of lists, attached blocks, delimited blocks, quotes, cells and paragraphs, with and without blank lines, comments, attributes and titles between them, both back ends",
        "why": "Each block kind must stop where any other starts, at any depth and in any list; tests show some of the pairs, at depth one or two.",
        "files": ["parser/src/tasks/parse_list.rs", "parser/src/tasks/parse_block.rs", "parser/src/tasks/parse_inlines/mod.rs", "parser/src/list_context.rs", "parser/src/contiguous_lines.rs", "parser/src/line.rs",
                  "parser/src/parser.rs", "parser/src/parse_context.rs", "parser/src/tasks/parse_section.rs", "parser/src/tasks/heading_level.rs"],
        "mech": [("items and what they hold", "parser/src/tasks/parse_list.rs parse_list, parse_list_item, parse_list_item_blocks, parse_list_continuation_blocks, parse_description_list_item, gather_extra_terms"),
                 ("which list a marker is of", "parser/src/list_context.rs starts_nested_list, continues_current_list; parser/src/line.rs list_marker"),
                 ("where a text ends", "parser/src/tasks/parse_inlines/mod.rs should_stop_at; parser/src/line.rs continues_list_item_principle"),
                 ("blocks and their delimiters", "parser/src/tasks/parse_block.rs parse_unanchored_block, parse_delimited_block, parse_markdown_blockquote, split_off_after_paragraph"),
                 ("sections", "parser/src/tasks/parse_section.rs parse_section, parse_peeked_section; parser/src/tasks/heading_level.rs section_start_level")],
        "note": "All of parse_list.rs and parse_block.rs but attribute definitions are under contract, with the list stack, the lines and where a text stops: what is parsed plus what is left is what was to be read, no item is of another list, no context leaks. "
                "So are delimited blocks, sections in sections, Markdown's quotes and the reading of lines. Trusted: what the tokens of a line are, the next line, the same contract for tables and attribute definitions, what attribute lines say, termination. Those, what parts and sections a document starts with, and the back ends are searched.",
    },
    "C08": {
        "verus": ["tables"], "probe": ["tables"],
        "title": "The cells of a table fill its columns, and their text is theirs",
        "statement": "Every cell of a table is placed: from left to right, each row's cells and those reaching down into it fill exactly the table's columns, without overlap, only the last row may be short, "
                     "and no cell is lost or repeated but the copies asked for and the ones a diagnostic names. A cell holds the text between its separator and the next one, "
                     "quoted or escaped separators included. Header and footer rows are there exactly when asked for or implied, and column widths are the shares asked for.",
        "over": ["inputs", "configurations"],
        "quant": "every table in pipe, comma, tab and colon separated form: cells with spans, copies and styles, escaped, quoted and multi-byte separators, column specs, header and footer options",
        "why": "Spans, copies, implied headers and separators interact over rows; tests show a few tables of two or three rows each.",
        "files": ["parser/src/tasks/table/parse_psv_table.rs", "parser/src/tasks/table/parse_dsv_table.rs", "parser/src/tasks/table/parse_csv_table.rs", "parser/src/tasks/table/parse_table.rs",
                  "parser/src/tasks/table/parse_table_spec.rs", "parser/src/tasks/table/context.rs", "parser/src/tasks/table/mod.rs", "ast/src/table.rs", "ast/src/col_widths.rs"],
        "mech": [("rows of cells", "parser/src/tasks/table/parse_psv_table.rs parse_psv_table_row, next_psv_cell, parse_psv_implicit_first_row"),
                 ("text of cells", "parse_psv_table.rs parse_psv_table_cell, parse_dsv_table.rs finish_dsv_table_cell, parse_csv_table.rs finish_csv_table_cell, mod.rs TableTokens"),
                 ("cell specs", "parser/src/tasks/table/parse_table_spec.rs peek_cell_start, parse_span_factor, parse_duplication_factor"),
                 ("the grid", "parser/src/tasks/table/context.rs add_phantom_cells, free_col, room_at"),
                 ("header and footer", "parser/src/tasks/table/parse_table.rs push_table_row, finish_implicit_header_row")],
        "note": "Token splitting, cell starts, the text of cells in all formats, the grid, rows, copies and the header are under contract; theorem: no two cells overlap and a row is full or the last. "
                "Trusted: a cell's content is that of its tokens and its spans those asked for (finish_cell), header cells reparsed keep their spans, token lexemes, hash sets. Widths are searched.",
    },
    "C12": {
        "verus": ["select"], "probe": ["select"],
        "title": "An include contributes exactly the lines it selects, as if pasted in",
        "statement": "An include directive stands for the lines of the file that its lines or tags attribute selects (all of them without one, lines before tags), "
                     "without tag directives when tags select, in order, decoded by byte order mark or as UTF-8, reindented as asked. The document converts as if these lines "
                     "were written in its place. A missing tag, or one that is mismatched or never closed, is warned about, and nothing else changes.",
        "over": ["inputs", "configurations"],
        "quant": "every content and encoding of an included file, every lines, tag, tags and indent attribute, every place in a document",
        "why": "Tests sample some fifty selections of a few files; specifications, tag nesting, mismatches, encodings and surrounding blocks combine freely.",
        "files": ["parser/src/tasks/directives/includes/normalize_includes.rs", "parser/src/tasks/directives/includes/tags.rs",
                  "parser/src/tasks/directives/includes/process_includes.rs", "parser/src/parser.rs"],
        "mech": [("line ranges", "parser/src/tasks/directives/includes/normalize_includes.rs parse_line_ranges, select_line_ranges"),
                 ("tag lists", "parser/src/tasks/directives/includes/tags.rs parse_spec, parse_selection, TagSpecs::push, TagFilter"),
                 ("tagged lines", "parser/src/tasks/directives/includes/tags.rs _select_tagged_lines"),
                 ("encoding, whitespace and indent", "normalize_includes.rs normalize_encoding, normalize_asciidoc, process_includes.rs set_include_indentation")],
        "note": "Selection, tag list parsing and merging, the tag stack and filter, decoding, trimming and reindenting are under contract against functional "
                "specifications. Trusted: the tag directive regex, usize::parse, the string splitting of the standard library. That the document converts as if pasted is searched.",
    },
    "C13": {
        "verus": ["cond"], "probe": ["cond"],
        "title": "Conditional directives keep exactly the right lines",
        "statement": "An ifdef, ifndef or ifeval keeps its lines, up to its own endif, exactly when its condition holds for the attribute values in "
                     "force there: any of a comma-separated, all of a plus-separated list of names, and comparisons by type. What is skipped has no "
                     "effect: the document converts as if the directives and the skipped lines were not there, in included files and verbatim blocks "
                     "too, while directives in comment blocks are inert.",
        "over": ["inputs", "histories"],
        "quant": "every nesting of conditionals, every attribute history and expression, every division of the lines over included files and blocks",
        "why": "Tests try some thirty fixed snippets; nesting, skipped directives, embedded lines and attribute changes in between combine freely.",
        "files": ["parser/src/tasks/directives/ifdef.rs", "parser/src/tasks/directives/ifeval.rs", "parser/src/tasks/directives/mod.rs",
                  "parser/src/parser.rs", "parser/src/line.rs"],
        "mech": [("conditions", "parser/src/tasks/directives/ifdef.rs evaluate_ifdef, ifeval.rs eval, coerce_eval_expr"),
                 ("skipping", "parser/src/tasks/directives/ifdef.rs skip_lines_until_endif"),
                 ("line assembly", "parser/src/parser.rs read_line, read_lines")],
        "note": "Conditions, the directive handlers, the stack of open conditionals and skipping are under contract with a theorem that skipping ends at "
                "the matching endif. Trusted: the directive regexes as uninterpreted functions, str::parse. Line assembly is searched against a line-based reference.",
    },
}
NOT_APPLICABLE = {}
HOOK_COMMITS = ["1d544a9"]
