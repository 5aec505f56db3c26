"""The properties: one entry each.  `note` is the assurance statement of the check."""

TABLE_NOTE = ("Every path of the listed functions (type-checked MIR, callees inlined) is compared with a decision table written from the "
              "property; open questions are split into all cases. Undecided cases are counted in the evidence and never reported. "
              "Trusts rustc's MIR, the transfer functions for std/anyhow, and that usize sums do not overflow.")

SPEC_NOTE = ("Every path of the listed functions (type-checked MIR, callees inlined) is compared with every path of a plain reference "
             "specification in specs/, itself analysed as MIR and never run; loops are matched by simulation or by summaries (folds). Calls to "
             "other checked functions are compared by callee and arguments, so the guarantee composes by induction over the structure. Undecided "
             "cases are counted in the evidence and never reported. Trusts rustc's MIR, the transfer functions for std/anyhow, and "
             "that sizes stay below 2^63.")

NOTE21 = ("The code serde derives is analysed as compiled (type-checked MIR): every path of serialize gives names and values written, the visitors "
          "give names and places read and the value for a missing name; conversions are composed with their inverse. Decided for values of any "
          "size. Trusts serde's, serde_json's and serde_yaml's own readers and writers. Untagged point variants told apart by text only are "
          "left undecided and counted.")

NOTE22 = ("Derived code is analysed as compiled (type-checked MIR) with the same rule as code written by hand, part by part; equality and copies of "
          "the parts' own types are obligations of their own. Decided for values of any size. Trusts the standard library's equality and copies.")

PROPS = [
    dict(id="C01", title="Every reference in existence is well formed",
         statement="Every reference value the library can hand out has no gaps in its parts (apart from a missing paragraph) and is a "
                   "range only in its last part. This holds however it was made: built part by part, converted from unchecked parts, "
                   "deserialized, read from compact text, or derived from other references by navigation or resolution. Exactly the "
                   "well-formed part combinations are accepted; every other combination is refused with an error.",
         forall="for every combination of present/absent and single/range parts and every way of obtaining a reference",
         why="Tests build a handful of references; validity has to hold for all 2^5 part combinations times range placements and for every "
             "function that returns a reference.",
         files=["src/reference/mod.rs", "src/reference/unchecked.rs", "src/reference/builder.rs", "src/reference/string.rs",
                "src/reference/to_element.rs"],
         mech=[("validating conversion from unchecked parts", "src/reference/unchecked.rs"),
               ("private parts, serde try_from", "src/reference/mod.rs")],
         note=TABLE_NOTE + " Functions whose result is not interpreted are listed as undecided in the evidence."),
    dict(id="C02", title="Reference navigation: parent, last part, ends of a range, element addresses",
         statement="The parent of a reference is that reference without its last part; its last part is its deepest present part; its first "
                   "and last elements replace every range by its start or its end and change nothing else. Asking a reference for its "
                   "act, article or deepest part, or removing its act, never alters the other parts. A structural element's own "
                   "reference is its parent's reference extended by exactly its own identifier.",
         forall="for every well-formed reference and every structural element",
         why="Tests sample a few references; the rule is over all part combinations, both point kinds and all element types.",
         files=["src/reference/mod.rs", "src/reference/parts.rs", "src/reference/to_element.rs"],
         mech=[("navigation methods", "src/reference/mod.rs"), ("element references", "src/reference/to_element.rs")],
         note=TABLE_NOTE),
    dict(id="C03", title="Relative references resolve by inheriting exactly the missing upper parts",
         statement="Resolving a reference against a base takes every part above the reference's first present part from the base, keeps "
                   "the reference's own parts, and takes nothing below; a reference with an act ignores the base and an empty one "
                   "becomes the base. Setting or clearing a part while building a reference keeps the parts above it and clears all "
                   "parts below it. A combination that is not well formed is refused with an error.",
         forall="for every pair of references, and every sequence of part settings on a reused builder",
         why="Tests cover some levels; the rule is over all pairs of part combinations and all histories of a builder.",
         files=["src/reference/mod.rs", "src/reference/builder.rs"],
         mech=[("relative resolution", "src/reference/mod.rs"), ("part setters", "src/reference/builder.rs")],
         over=["inputs", "histories"], note=TABLE_NOTE),
    dict(id="C04", title="Containment, parenthood and order of references agree with the hierarchy",
         statement="A reference is the parent of another exactly when both are in the same act and the other extends it by at least one "
                   "lower part, with everything above equal. A reference contains another exactly when the other's first and last "
                   "elements lie between (or below) its own first and last elements. Order and equality of references compare act, "
                   "article, paragraph, point and subpoint in that order, an absent part sorting first; ranges compare by their start, "
                   "then by their end, numbered points before lettered ones.",
         forall="for every pair of references, including ranges and references on different branches",
         why="Tests compare a few hand-picked pairs; the rules are over all pairs of part combinations.",
         files=["src/reference/mod.rs", "src/reference/parts.rs", "src/identifier/range.rs"],
         mech=[("parenthood and containment", "src/reference/mod.rs")], note=TABLE_NOTE),
    dict(id="C05", title="Reference ranges span exactly from the first to the second",
         statement="A range made of two references starts at the start of the first and ends at the end of the second, differs from them "
                   "in a single level which is the last one, and is refused across acts, levels or kinds of identifier. An identifier "
                   "range contains exactly the identifiers between its two ends, both inclusive; it counts as a range exactly when its "
                   "ends differ.",
         forall="for every pair of references and every range and identifier",
         why="Tests make a few ranges; the rule is over all pairs of part combinations and both kinds of points.",
         files=["src/reference/mod.rs", "src/identifier/range.rs", "src/reference/parts.rs"],
         mech=[("range construction", "src/reference/mod.rs"), ("identifier ranges", "src/identifier/range.rs")], note=TABLE_NOTE),
    dict(id="C06", title="Succession and order of identifiers",
         statement="An identifier is accepted as the next one exactly when it follows in Hungarian legal numbering: the next number, the first "
                   "or next suffix letter of the same number, the next letter (with the digraphs cs, dz, gy, ly, ny, sz, ty, zs after their "
                   "first letter, and r directly after p), the same prefix, the same book or the first article of the next book. The "
                   "first identifier is 1 or a, unsuffixed. Identifiers sort by book, number, then suffix, digraphs directly after their "
                   "letter, and equality compares every part, so that a successor always sorts after its predecessor; acts and issues of "
                   "the journal sort by year, then by number.",
         forall="for every pair of identifiers of each kind (numbers up to the largest one representable)",
         why="Tests try a few dozen pairs; the letters alone make 34 x 34 pairs, times numbers, books and prefixes.",
         files=["src/identifier/numeric.rs", "src/identifier/alphabetic.rs", "src/identifier/prefixed_alphabetic.rs",
                "src/identifier/article.rs", "src/identifier/paragraph.rs", "src/identifier/act.rs"],
         mech=[("is-next and is-first per identifier kind", "src/identifier/"), ("order of letters", "src/identifier/alphabetic.rs")],
         note=TABLE_NOTE),
    dict(id="C07", title="Walking an act visits every element once, in order, with its reference",
         statement="Walking an act enters every sub-article element outside quoted blocks and amendments exactly once, in document order, "
                   "with the full reference of that element; an element's children are walked between entering and leaving it. The "
                   "read-only and the mutable walk visit the same elements in the same order. The first error from the visitor, or from "
                   "making a reference, ends the walk and is returned.",
         forall="for every act, every nesting of points and subpoints, and every visitor",
         why="Tests walk one small act; the guarantee is over all shapes of acts, both walks and every error position.",
         files=["src/util/walker.rs"],
         mech=[("walk per element kind", "src/util/walker.rs")], note=SPEC_NOTE),
    dict(id="C08", title="Lines keep every character, its position and boldness when cut and joined",
         statement="A line's text is exactly its characters in order. Cutting a line keeps the characters between the two positions (negative "
                   "ones count from the end) where they were on the page, and stays justified only if the end of the line is kept. Joining "
                   "keeps every character of every line in order at its place. A line is bold when more than two thirds of its "
                   "characters are. Joined text gets a space between lines except after a hyphen that splits a word; a header "
                   "is recognised only at the start of a line, and the rest of the line is returned whole.",
         forall="for every line, every cut position (negative and out of range included) and every sequence of lines",
         why="Tests cut a few literal lines; positions, lengths and boldness are unbounded.",
         files=["src/util/indentedline.rs"],
         mech=[("making, cutting and joining lines", "src/util/indentedline.rs")], note=SPEC_NOTE),
    dict(id="C09", title="Quoted blocks are cut at their quote signs and no line is lost",
         statement="The quote level rises by one for every opening and falls by one for every closing quote sign; more closing than opening "
                   "signs, or an unclosed quote at the end, is an error. When a text with quoted blocks is read, each input line goes to "
                   "exactly one place - the text before, the block (without its delimiting quote signs) or the text after - in "
                   "order; a block that does not end, or text that does not fit, refuses the whole rather than dropping lines.",
         forall="for every sequence of lines and every placement and nesting of quote signs",
         why="Tests use a few documents; the state machine has eight states and any line may follow any other.",
         files=["src/util/mod.rs", "src/parser/structure/quote.rs"],
         mech=[("quote level", "src/util/mod.rs"), ("quoted block state machine", "src/parser/structure/quote.rs")],
         over=["inputs", "histories"], note=SPEC_NOTE),
    dict(id="C10", title="Text output writes everything once, in document order, at its depth",
         statement="The text output of an act, and of each kind of element, writes its header and all its own texts (title, intro, text, "
                   "wrap-up) and every child exactly once, in document order, children one level deeper and each header only once on its "
                   "first line. Colour adds escape codes around the texts and changes nothing else: highlighted references and "
                   "the text between them put together are the whole text. A failing writer makes the output fail.",
         forall="for every act, width, indentation and colour setting, and every point at which the writer fails",
         why="Tests print one act; the rule is over every element kind, optional part and write failure.",
         files=["src/output/text.rs", "src/output/mod.rs"],
         mech=[("text output per element kind", "src/output/text.rs"), ("plain output and format choice", "src/output/mod.rs")],
         note=SPEC_NOTE),
    dict(id="C11", title="Looking up articles, element headers and emptiness",
         statement="Looking up an article finds the first article with that identifier, or nothing if there is none. The header of every "
                   "structural element, article and sub-article element is its own identifier in the form of its kind (Hungarian "
                   "ordinal, special part name, Roman or Arabic number, letter), and the unsuffixed number in a structural "
                   "header reads back as the same identifier. A text element counts as empty when its text is empty, an element with children when all of "
                   "its children are empty, and a list of quoted blocks or structural amendment parts when it has none.",
         forall="for every act, every identifier and every nesting of children",
         why="Tests print a few headers; the rule is over all element kinds, all identifiers and all shapes of children.",
         files=["src/structure.rs"],
         mech=[("article lookup, headers, emptiness", "src/structure.rs")], note=SPEC_NOTE),
    dict(id="C12", title="Identifiers and references are written with all parts and read back the same",
         statement="The text of an identifier, and the compact text of an identifier, range or reference, contains every part of it, in an order "
                   "and with separators that keep the parts apart; reading takes each part back from the same place, so what was written "
                   "reads back as the same value, in serialized form too. Text that has too few or too many parts or a part "
                   "that does not parse is refused with an error. An act's identifier is also read from its title (2012. évi I. törvény) or from "
                   "year and number with a separator. Hungarian dates, month names and numerals are translated one to one.",
         forall="for every identifier, range and reference, and every text offered for reading",
         why="Tests round-trip some values; the rule is over all identifiers, all part combinations and all malformed texts.",
         files=["src/identifier/", "src/reference/string.rs", "src/reference/parts.rs", "src/util/compact_string.rs", "src/util/hun_str.rs"],
         mech=[("Display and FromStr of identifiers", "src/identifier/"), ("compact text", "src/util/compact_string.rs"),
               ("compact text of references", "src/reference/string.rs")], note=SPEC_NOTE),
    dict(id="C13", title="A fixup changes exactly the line it was written for, or is refused",
         statement="A fixup is applied only where its context (the lines in `after`, then `old`) occurs exactly once among the lines; when it "
                   "occurs nowhere or more than once, or would change nothing, it is refused with an error and the lines stay as they "
                   "were, and otherwise only that one line is replaced. Its content becomes `new`, and the characters of the common beginning and "
                   "end keep their position and boldness. A list of fixups is applied in its order and stops at the first error; adding "
                   "appends at the end; a missing fixup file means no fixups and any other read error is reported.",
         forall="for every fixup, every list of fixups and every sequence of lines",
         why="Tests replace a few words; the rule is over every position of the common parts, every number of matches and every order.",
         files=["src/fixups.rs"], mech=[("applying, loading, adding fixups", "src/fixups.rs")], over=["inputs", "histories"], note=SPEC_NOTE),
    dict(id="C14", title="Cached issues and saved fixups are whole, whatever fails on the way",
         statement="A downloaded issue in the cache, and a saved fixup file, is either what was there before or the complete new content: the "
                   "file is never written under its final name, it is moved there only after everything was written without error, and success "
                   "is reported only then, and what is stored and returned as an issue is the whole answer of a request that "
                   "succeeded. A cached issue is found under a name made of the cache directory, the year and the issue number, and "
                   "the address asked depends on both; the YAML helpers use the singleton-map form for writing and reading alike.",
         forall="for every issue, cache directory and fixup list, and every point at which a request, read, write or rename fails or the process dies",
         why="No test makes a write or a download fail; the rule is over every failure point and what the next run finds.",
         files=["src/mk_downloader.rs", "src/fixups.rs", "src/util/singleton_yaml.rs"],
         mech=[("cache", "src/mk_downloader.rs"), ("saving fixups", "src/fixups.rs"), ("YAML form", "src/util/singleton_yaml.rs")],
         over=["inputs", "crash_points", "fault_sequences"], note=SPEC_NOTE),
    dict(id="C15", title="Act text is split into articles, subtitles and structural elements without loss",
         statement="Every line of an act body ends up in exactly one place, in order: the preamble, or the title or body of the last "
                   "element whose header was seen; a new element starts only at a line that is outside quotes and is a header of a "
                   "structural element, a subtitle or the next article (in that order of preference, articles following each other by "
                   "identifier and indentation). An unfinished quote, an article that cannot be parsed, a body with no element, text "
                   "before the first element of an amendment, or an implausibly long subtitle is an error, never a silently shortened "
                   "act. An article keeps its bracketed title, then its numbered paragraphs, or all its text as one unnumbered paragraph.",
         forall="for every sequence of lines (any text, indentation, boldness) and every parsing context",
         why="Tests parse a few real gazette excerpts; the rules are over all orders and combinations of headers, quotes and indents.",
         files=["src/parser/structure/act.rs", "src/parser/structure/article.rs", "src/parser/structure/subtitle.rs",
                "src/parser/structure/structural_element.rs"],
         mech=[("act body", "src/parser/structure/act.rs"), ("articles", "src/parser/structure/article.rs"),
               ("subtitles", "src/parser/structure/subtitle.rs"), ("structural elements", "src/parser/structure/structural_element.rs")],
         note=SPEC_NOTE),
    dict(id="C16", title="Paragraphs, points and subpoints are recognised in sequence, keeping all text",
         statement="A list of elements is accepted only if it starts with the expected (or first) identifier, each later element follows "
                   "the one before it, starts outside quotes and is not indented deeper than the first; otherwise the text stays "
                   "undivided. All text of the element goes to its intro, one of its children, or its wrap-up, in order, and the "
                   "first kind of children that fits is taken (quoted block, numeric points, alphabetic points). Headers are exactly "
                   "those of the element kind: `(1a)`, `1a.`, `a)`, and `ab)` with the prefix of its parent.",
         forall="for every sequence of lines, every expected identifier, both parsing contexts and both wrap-up modes",
         why="Tests hold a handful of layouts; the rules are over every nesting, quote position, indentation and identifier sequence.",
         files=["src/parser/structure/sae.rs"], mech=[("sub-article elements", "src/parser/structure/sae.rs")], note=SPEC_NOTE),
    dict(id="C17", title="Quoted blocks become amendments of the announced kind, or stay as they were",
         statement="A paragraph's single quoted block is replaced by an amendment exactly when its semantic info announces a block "
                   "amendment; its children are parsed as the announced kind of element (articles, paragraphs, points, subpoints, "
                   "title-only elements, or a whole body) starting at the first announced identifier, and its intro and wrap-up are kept. "
                   "When that cannot be done an error is returned and the paragraph is unchanged; every other paragraph is left "
                   "alone, and the conversion visits every paragraph of every article of the act.",
         forall="for every act, special phrase, reference and sequence of quoted lines, and every point at which the conversion fails",
         why="Tests convert a few amendments; the rules are over every announced position, every failing conversion and every quoted text.",
         files=["src/parser/structure/block_amendment.rs"],
         mech=[("block amendments", "src/parser/structure/block_amendment.rs")], over=["inputs", "histories"], note=SPEC_NOTE),
    dict(id="C18", title="An issue is split into its acts with every line of the section of acts, in order",
         statement="Of the pages of an issue, exactly the lines between the bold heading of the section of acts (or, before any section "
                   "heading was seen, the first bold line naming an act) and the next section heading are used, in order, with an "
                   "empty line after each page. An act starts at a header line after an empty line, which gives its year and number; "
                   "the following lines up to an asterisk are its subject; then every line goes to its body until the signatures, which "
                   "are taken off again with the empty line before them, as is the footnote about the enactment. Each finished act carries the "
                   "publication date of the cover page and nothing of the act before it. Two empty lines never follow each other in "
                   "a body, and nothing else is removed. An issue of fewer than two pages, or with another cover page or date, is an error.",
         forall="for every sequence of pages and lines (any text and boldness, any number of acts, any page break position)",
         why="Tests split a few real issues; the rules are over every order of headings, headers, footnotes, signatures and page breaks.",
         files=["src/parser/mk_act_section.rs"],
         mech=[("finding acts in an issue", "src/parser/mk_act_section.rs")], over=["inputs", "histories"], note=SPEC_NOTE),
    dict(id="C19", title="Every glyph of a PDF becomes its characters, in place, with its font's boldness",
         statement="Every character code shown inside the crop box becomes, once, the text its font maps it to (with the known "
                   "miscodings of this gazette put right), at the place, height and width that the text state gives it; the boldness "
                   "and the width of a space are those of the font in force, also after the graphics state is restored, after a form "
                   "was drawn and after a font set by an extended graphics state. Text of a marked content span with a replacement "
                   "text becomes that text at the place of its first glyph. The text matrices, spacing, scaling, leading, rise and "
                   "the stack of saved states change exactly as each operation says; a font never gets the mapping of another one; "
                   "every page of the file is returned in order, and an unknown code, font or state is an error.",
         forall="for every PDF file: every sequence of operations (saves, restores, forms, fonts, marked content), every font and every character code",
         why="Tests read a few PDF files; the rules are over every order of operations, every matrix and every character code.",
         files=["src/parser/pdf/mod.rs", "src/parser/pdf/page.rs", "src/parser/pdf/textstate.rs", "src/parser/pdf/collector.rs",
                "src/parser/pdf/actual_text.rs", "src/parser/pdf/font.rs", "src/parser/pdf/util.rs"],
         mech=[("operations of a page", "src/parser/pdf/page.rs"), ("text state", "src/parser/pdf/textstate.rs"),
               ("collecting characters", "src/parser/pdf/collector.rs"), ("fonts", "src/parser/pdf/font.rs")],
         over=["inputs", "histories"], note=SPEC_NOTE),
    dict(id="C20", title="Characters of a page become lines, top to bottom and left to right, none lost",
         statement="Every character collected from a page is on exactly one line. Lines are in order from top to bottom; characters within half a "
                   "unit of height of the first one of the line are on that line, and a gap of more than 16 units is marked by one empty line. "
                   "In a line the characters are in order from left to right with their own boldness; exactly one space is put where the gap "
                   "is more than half the width of a space, or before an opening quote; no space is at either end. The positions add "
                   "up to the x of each character, and a line counts as justified exactly when it reaches the right margin to within "
                   "0.8 of a space. A page without characters is one empty line.",
         forall="for every set of characters: any positions, widths, boldness and content, in any order of drawing",
         why="Tests read a few PDF files; the rules are over every arrangement of characters.",
         files=["src/parser/pdf/page_of_lines.rs", "src/parser/pdf/util.rs", "src/parser/pdf/mod.rs"],
         mech=[("lines of a page", "src/parser/pdf/page_of_lines.rs")], note=SPEC_NOTE),
    dict(id="C21", title="What is written as data is read back as the same value",
         statement="Every type of the library that can be written as data (JSON, YAML) and read from it is read back as what was written: each "
                   "field is read from the name it is written under into the field it came from; a field is left out only with the value "
                   "that reading puts in its place, so no content, flag or semantic information disappears; each variant is read from the "
                   "name it is written under, and where variants carry no name, what one of them writes cannot be taken for another; a value "
                   "written through another type (references, ranges, identifiers as text) is restored by the conversion back. Texts of "
                   "identifiers are C12.",
         forall="for every value of every type with both directions (48 types: acts and their parts, semantic information, references, identifiers, fixups, lines)",
         why="The tests round-trip two acts and a list of references; a value that is wrongly left out, renamed or converted shows only when "
             "that very field has that value.",
         files=["src/structure.rs", "src/semantic_info.rs", "src/reference/unchecked.rs", "src/reference/parts.rs", "src/reference/structural.rs",
                "src/identifier/range.rs", "src/identifier/paragraph.rs", "src/fixups.rs", "src/util/indentedline.rs"],
         mech=[("serde derive attributes and the code generated from them", "src/structure.rs, src/semantic_info.rs"),
               ("UncheckedReference, IdentifierRangeSerdeHelper", "src/reference/unchecked.rs, src/identifier/range.rs")],
         note=NOTE21),
    dict(id="C22", title="Copies, equality and conversions keep every part of a value",
         statement="Two values of a library type are equal exactly when they are of the same variant and all their parts are equal (for lines of "
                   "text see C08); a copy has all parts of the original; converting a value to a type that has a variant for it gives that variant "
                   "holding the whole value (children into the children of their parent, texts into a body, references into repeals and phrases, "
                   "parents of a structural reference into the element of the same kind); converting a found reference gives its reference; kinds "
                   "of structural elements are ordered book, part, title, chapter.",
         forall="for all values of the 50 types with equality, the 62 with copies and for all 38 conversions, whether derived or written by hand",
         why="Every test of the repository compares with these equalities and would not notice one that ignores a part; copies and conversions "
             "are exercised on a handful of values.",
         files=["src/structure.rs", "src/semantic_info.rs", "src/reference/mod.rs", "src/reference/parts.rs", "src/reference/structural.rs",
                "src/identifier/", "src/fixups.rs"],
         mech=[("derives and trait implementations of the data types", "src/structure.rs, src/semantic_info.rs, src/reference/, src/identifier/")],
         note=NOTE22),
]

NOT_CLAIMED = {}
