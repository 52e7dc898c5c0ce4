#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = "src/serializer/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Formatting never panics and always terminates",
  "For every Markdown document and every valid option set, formatting returns a string: it never panics, overflows, slices inside a character or loops forever.",
  ["inputs", "configurations"], "every input text x every valid Options value",
  "The suite formats a few hundred hand-written documents, nearly all with default options; slicing, index and width arithmetic depends on arbitrary byte positions, multi-byte characters and small line widths.",
  ["src/lib.rs"] + [S + f for f in ("mod.rs", "document.rs", "state.rs", "wrap.rs", "escape.rs", "punctuation.rs", "heading.rs", "list.rs", "table.rs", "link.rs", "inline.rs", "code.rs")],
  [("safe slicing of source text", S + "state.rs"), ("width arithmetic", S + "wrap.rs, mod.rs")], ["hongdown::format"])
p("C02", "Formatting is idempotent",
  "Formatting an already formatted document with the same options changes nothing: format(format(d)) = format(d).",
  ["inputs", "configurations"], "every input text x every valid Options value",
  "Idempotence is a statement about the image of the formatter over all documents; the tests check it for a handful of documents. --check in CI depends on it.",
  ["src/lib.rs", S + "mod.rs", S + "document.rs", S + "wrap.rs", S + "escape.rs", S + "punctuation.rs", S + "list.rs", S + "table.rs"],
  [("serializer output is a fixed point of parse+serialize", S + "*")], ["hongdown::format"])
p("C03", "Formatting preserves the document's structure and meaning",
  "The formatted document parses (as CommonMark/GFM with the extensions the tool uses) to the same tree of blocks and inlines, with the same text, code, link targets, titles and HTML as the input, up to the typographic changes the options ask for and to line wrapping.",
  ["inputs", "configurations"], "every input text x every option set",
  "Tests compare output strings for sample documents; whether arbitrary text adjacent to arbitrary delimiters re-parses to the same tree is a property of all inputs.",
  ["src/lib.rs"] + [S + f for f in ("mod.rs", "document.rs", "block.rs", "inline.rs", "escape.rs", "list.rs", "link.rs", "table.rs", "code.rs", "wrap.rs")],
  [("escaping of significant characters", S + "escape.rs, inline.rs"), ("block prefixes and separators", S + "block.rs, list.rs")], ["hongdown::format"])
p("C04", "Disabled regions are reproduced byte for byte",
  "Text covered by a disable-file, disable/enable, disable-next-line or disable-next-section directive appears in the output exactly as it was in the input, including any link or footnote definitions it holds, and text outside those regions is still formatted and keeps its links and footnotes.",
  ["inputs"], "every document containing directives, every content of the disabled region",
  "Tests cover one or two bodies per directive; the guarantee is for arbitrary bodies and positions.",
  [S + "document.rs", S + "state.rs", "src/lib.rs"],
  [("directive recognition", S + "state.rs"), ("verbatim source extraction", S + "document.rs")], ["hongdown::format"])
p("C05", "Code block content is verbatim inside a sufficient fence",
  "The content and info string of every code block survive formatting unchanged, whatever the fence options, because the emitted fence uses the configured character, is at least the configured length and is longer than any run of that character that could close it.",
  ["inputs", "configurations"], "every code block body and info string, top level or nested, x fence character, minimum length, spacing",
  "Tests use a few bodies; fence choice depends on arbitrary runs of fence characters in the body and on the minimum length.",
  [S + "code.rs", S + "list.rs", S + "block.rs"], [("fence length selection", S + "code.rs")], ["hongdown::format"])
p("C06", "Punctuation transformation changes only what its option names",
  "Each punctuation option (curly double quotes, curly single quotes, curly apostrophes, ellipsis, en dash, em dash) rewrites only its own ASCII pattern to its own typographic characters; with every option off the prose is unchanged, and undoing the substitutions always gives back the original prose.",
  ["inputs", "configurations"], "every prose text x every combination of punctuation options and dash patterns",
  "Tests check examples per option with single sentences; the guarantee concerns all character contexts and all option combinations.",
  [S + "punctuation.rs", S + "inline.rs"], [("transform_punctuation", S + "punctuation.rs")], ["hongdown::format"])
p("C07", "Sentence case changes letter case only, and only where allowed",
  "With sentence case on, a heading's text differs from the original only in the case of letters; code spans, acronyms, user-listed proper nouns keep their spelling, user-listed common nouns are lower-cased except in first position, and with sentence case off headings keep their case.",
  ["inputs", "configurations"], "every heading text x proper/common noun lists",
  "The tests list about a hundred headings; the word, quote, hyphen and noun-matching rules interact over all strings.",
  [S + "heading.rs", S + "document.rs"], [("to_sentence_case", S + "heading.rs")], ["hongdown::format"])
p("C08", "Wrapped prose never exceeds the line width unless unbreakable",
  "No line of wrapped prose in the output is wider (in display columns) than the configured line width unless it holds no space at which it could have been broken.",
  ["inputs", "configurations"], "every paragraph x every line width and container nesting",
  "Off-by-one widths only show for particular word lengths against a particular width; tests use fixed sentences at width 80.",
  [S + "wrap.rs", S + "document.rs", S + "list.rs", S + "block.rs"], [("wrap_text", S + "wrap.rs")], ["hongdown::format"])
p("C09", "Wrapping keeps every word, in order",
  "Line wrapping changes only white space between words: the sequence of words of a paragraph is the same before and after, hard line breaks stay, and no new one appears.",
  ["inputs", "configurations"], "every paragraph x every line width",
  "A lost or joined word needs particular lengths and break positions; tests sample a few.",
  [S + "wrap.rs", S + "escape.rs", S + "inline.rs"], [("wrap_text", S + "wrap.rs"), ("hard break handling", S + "inline.rs")], ["hongdown::format"])
p("C10", "Escapes in prose keep literal characters literal",
  "A character that is literal text in the input (plain or backslash-escaped) is literal text in the output: escaping is never lost, and none is added that shows up in the rendered text.",
  ["inputs"], "every prose text over all ASCII punctuation with and without backslashes",
  "Escaping correctness depends on each special character and its neighbours; tests cover chosen characters.",
  [S + "escape.rs", S + "inline.rs"], [("escape_text", S + "escape.rs")], ["hongdown::format"])
p("C11", "Headings keep level and text; underlines match display width",
  "Every heading keeps its level and text and is written in the style the options select (setext for levels 1 and 2 when enabled, ATX otherwise; where the text would start another block in ATX or setext form, the form that keeps it a heading); a setext underline has exactly the display width of the heading text, counting East Asian wide characters as two.",
  ["inputs", "configurations"], "every heading of every level, both source styles, x setext options",
  "Underline length is a function of arbitrary text widths, and style of three options; tests sample a few headings.",
  [S + "document.rs"], [("heading serialization", S + "document.rs")], ["hongdown::format"])
p("C12", "List items keep kind, numbering and nesting under any list options",
  "For every list, the output uses the configured bullet or delimiter for its nesting level (the alternate one where the list would otherwise join the list before it), the configured spacing and an indent of at least the marker's width, and re-parses to the same list: same kind, start number, item count, task state, nesting and item contents.",
  ["inputs", "configurations"], "every list x marker, spacing, indent, delimiter and padding options",
  "Option combinations (4 spaces settings x markers x indent widths x padding) times list shapes are not enumerable by the suite.",
  [S + "list.rs", "src/lib.rs"], [("list item serialization", S + "list.rs")], ["hongdown::format"])
p("C13", "Tables keep cells and alignment, with pipes lined up",
  "Every table keeps its number of rows and columns, its alignments and the content of every cell (pipes in cells stay escaped), and all rows of a table have the same display width with column separators in the same column.",
  ["inputs"], "every table shape, cell content and alignment row",
  "Cell widths and escaping depend on arbitrary text including wide characters; tests use a few tables.",
  [S + "table.rs", S + "escape.rs"], [("table serialization", S + "table.rs")], ["hongdown::format"])
p("C14", "Links keep target, title and text; every reference is defined once",
  "Every link and image in the output resolves to the same URL and title as in the input, whichever style it is written in, and each reference label the output uses has exactly one definition.",
  ["inputs"], "every inline, full, collapsed and shortcut link or image with any label, URL and title",
  "Conversion between inline and reference style depends on label equality, duplicates, adjacent brackets and section ends; tests sample some.",
  [S + "link.rs", S + "mod.rs", S + "document.rs"], [("reference collection and flush", S + "mod.rs, link.rs")], ["hongdown::format"])
p("C15", "Every footnote definition is kept exactly once",
  "Each footnote definition that the input refers to (the first one of its label) appears exactly once in the output with the same content and a label that matches, and every footnote reference still resolves to it.",
  ["inputs"], "every document with footnotes: label, content, position, order",
  "Flush order and placement depend on section structure and label order; tests sample a few layouts.",
  [S + "mod.rs", S + "document.rs", S + "state.rs"], [("footnote flush", S + "mod.rs")], ["hongdown::format"])
p("C16", "Output ends with exactly one newline",
  "The formatted text of every document ends with exactly one newline character (an empty document stays without content), unless formatting is disabled for the file.",
  ["inputs"], "every input text, with and without trailing blank lines, for every kind of last block",
  "Depends on the last block of the document and on pending references, footnotes and directives; tests do not sweep last-block kinds.",
  ["src/lib.rs", S + "mod.rs", S + "document.rs"], [("final newline normalization", "src/lib.rs, " + S + "mod.rs")], ["hongdown::format"])
p("C17", "Configuration values are accepted exactly when documented",
  "Every restricted option value (line width, fence length, indent widths, space counts, bullet and fence characters, dash patterns, thematic break style) is accepted exactly when it meets its documented rule; in particular a thematic break style is accepted exactly if, leaving aside white space around it, it is a valid CommonMark thematic break of at least three equal markers.",
  ["inputs", "configurations"], "every integer and every string value of each restricted option",
  "The tests check boundary samples; the rule is a predicate over all values.",
  ["src/config.rs"], [("validated newtypes", "src/config.rs")], ["hongdown::config newtype constructors and TOML parsing"])
p("C18", "Configuration layers merge field by field by priority",
  "When configuration layers are merged, each field takes the value of the highest-priority layer that sets it, fields set by no layer keep their default, and a layer read from a partial file sets exactly the fields the file mentions.",
  ["configurations"], "every pair of layers, each field set or unset to any value",
  "A dropped or swapped field only shows when exactly that field is set in exactly one layer; tests set a few fields.",
  ["src/config.rs"], [("layer merging", "src/config.rs")], ["hongdown::config"])
p("C19", "JavaScript options map one to one to formatter options",
  "Every option accepted by the JavaScript/WASM interface sets exactly the formatter option of the same name to the given value, and an absent option keeps the default.",
  ["configurations"], "every subset and value of the JavaScript options object",
  "Twenty-odd independent fields; tests check some of them.",
  ["src/wasm.rs"], [("JsOptions::to_options", "src/wasm.rs")], ["wasm format entry points"], "conversion is private")
p("C20", "Check, write, diff and stdout modes agree with the formatter",
  "The command line tool reports a file as needing formatting exactly when the formatter's output differs from the file, and writing leaves exactly that output in the file.",
  ["inputs", "histories"], "every file content and mode sequence",
  "Needs all contents and mode combinations.",
  ["src/main.rs"], [("process_files_*", "src/main.rs")], ["hongdown binary"])
p("C21", "External formatter failure keeps the original code",
  "If an external code formatter fails, times out, prints invalid output or is missing, the code block is emitted unchanged and a warning is reported.",
  ["fault_sequences"], "every failure of the external process",
  "Depends on process and timing behaviour.",
  [S + "formatter.rs", S + "code.rs"], [("run_formatter", S + "formatter.rs")], ["hongdown::format_with_warnings"])
p("C22", "Warnings never change the output",
  "Formatting with warnings returns the same text as formatting without them, and options that only concern warnings do not alter the text.",
  ["inputs", "configurations"], "every input text x every option set",
  "The two entry points are compared on few inputs.",
  ["src/lib.rs", S + "mod.rs"], [("shared serializer entry", S + "mod.rs")], ["hongdown::format, hongdown::format_with_warnings"])
p("C23", "Warnings are exact: undefined references and uneven tables only",
  "A warning about an undefined reference is issued for each label of a bracketed reference use (plain label on one line) with no matching definition, outside code and disabled regions, and for no other label; a table warning is issued exactly for the rows whose cell count, as GFM counts cells, differs from the header's; each carries the line it concerns.",
  ["inputs"], "every reference-like text and every table row",
  "False or missing warnings depend on brackets, escapes and code contexts; tests sample some.",
  [S + "document.rs", S + "table.rs"], [("undefined reference scan", S + "document.rs"), ("pipe counting", S + "table.rs")], ["hongdown::format_with_warnings"])
p("C24", "Front matter, HTML blocks and abbreviations are verbatim",
  "YAML front matter, HTML blocks, inline HTML, HTML entities and abbreviation definitions appear in the output exactly as written in the input.",
  ["inputs"], "every body of those constructs",
  "Tests use single fixed bodies.",
  ["src/lib.rs", S + "document.rs", S + "inline.rs"], [("verbatim source copy", S + "document.rs, inline.rs")], ["hongdown::format"])
p("C25", "Thematic breaks are written in the configured style",
  "Every thematic break of the input, however written, becomes exactly the configured style with the configured leading spaces, and re-parses as a thematic break.",
  ["inputs", "configurations"], "every thematic break spelling x every accepted style and leading spaces",
  "Styles and source spellings are unbounded; tests use two styles.",
  [S + "document.rs", "src/config.rs"], [("thematic break serialization", S + "document.rs")], ["hongdown::format"])
p("C26", "Code spans keep their content",
  "Every inline code span in the output has the same content as in the input, delimited by backtick runs that do not occur in it, in any context including table cells, link text and emphasis; typographic rules never reach it.",
  ["inputs", "configurations"], "every code span content x every context",
  "Backtick runs and padding interact over all contents; tests sample a few.",
  [S + "escape.rs", S + "inline.rs", S + "table.rs"], [("format_code_span", S + "escape.rs")], ["hongdown::format"])
p("C27", "Emphasis keeps its extent and kind",
  "Every emphasis, strong emphasis and strikethrough of the input is present in the output over the same text, with delimiters chosen so that it still parses as such.",
  ["inputs"], "every emphasised text and its neighbours",
  "Delimiter flanking rules depend on the characters on both sides; tests use plain words.",
  [S + "inline.rs", S + "state.rs"], [("delimiter selection", S + "state.rs")], ["hongdown::format"])
p("C28", "Block quotes and alerts keep their contents and nesting",
  "Every block quote and alert re-parses with the same kind, title, nesting and contents, with each of its lines prefixed.",
  ["inputs"], "every block quote or alert content, nesting and following block",
  "Prefix handling around nested blocks depends on block order; tests use a few nestings.",
  [S + "block.rs", S + "document.rs"], [("block quote serialization", S + "block.rs")], ["hongdown::format"])
p("C29", "Definition lists keep terms and details",
  "Every description list re-parses with the same terms, details and tightness-relevant content.",
  ["inputs"], "every term and detail text and count",
  "Tests use two or three fixed lists.",
  [S + "block.rs", S + "document.rs"], [("description list serialization", S + "document.rs")], ["hongdown::format"])
p("C30", "File collection honours include, exclude and ignore rules",
  "The set of files processed for given paths and patterns is exactly the Markdown files matched by the include patterns or named paths, minus the excluded and, when git-aware, ignored ones.",
  ["configurations", "inputs"], "every directory tree x pattern lists",
  "Needs arbitrary trees and patterns.",
  ["src/config.rs", "src/main.rs"], [("collect_files", "src/config.rs")], ["hongdown::config::Config::collect_files"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
