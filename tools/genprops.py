#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; kept as a script so the
long text stays reviewable."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Reading any bytes as an MO file never panics nor over-reserves memory",
 "For every byte sequence and every reader configuration, reading it as a binary MO catalogue never panics. "
 "Every table or string buffer it reserves for a count or length found in the file is no larger than the data actually supplied can hold: a table count or string length that the data cannot hold is reported as an error, not allocated.",
 ["inputs", "configurations"], "all byte strings given to the MO reader (all constructors, Parse, ParseWithOptions) x all MoConfig values",
 "The tests read two well-formed files; the property quantifies over all 2^n byte strings, in particular headers and table entries with hostile counts, offsets and lengths.",
 ["pkg/po/parse/mo_parser.go", "internal/util/bytes.go"],
 [("header, table and string reading", "pkg/po/parse/mo_parser.go MoParser.Parse/makeEntries/makeEntry"), ("byte-order detection", "pkg/po/parse/mo_parser.go defineOrder")],
 ["parse.Mo*", "MoParser.Parse/Error"])

prop("C02", "Reading any text as a PO file never panics",
 "For every text and every reader configuration, reading it as a PO catalogue never panics, it ends in a file or a recorded error. "
 "This includes truncated files, comment lines of every shape (references without a line number, several references, empty comments), obsolete entries and any obsolete-prefix setting.",
 ["inputs", "configurations"], "all byte strings given to the PO reader x all PoConfig values",
 "The tests parse a few well-formed catalogues; the property is about every text, and index expressions on split/regexp results are only exercised by shapes nobody wrote a test for.",
 ["pkg/po/parse/po_parser.go", "pkg/po/parse/po_config.go", "internal/util/po_parse.go"],
 [("comment classification", "pkg/po/parse/po_parser.go parseComments"), ("obsolete entries", "pkg/po/parse/po_parser.go parseObsoleteEntries"), ("terminating marker entry", "pkg/po/parse/po_parser.go Parse")],
 ["parse.Po*", "PoParser.Parse/Errors"])

prop("C03", "Extracting messages from any Go source never panics",
 "For every Go source text (valid or not) and every extractor configuration, extraction never panics, it ends in entries or errors: calls with too few arguments, non-literal arguments, aliased imports, absent (nil) configurations and reused or reset file objects included.",
 ["inputs", "configurations", "histories"], "all source texts x all Config values x repeated use of Parser and File",
 "Tests extract from a handful of snippets; call shapes (arity, argument kinds, dot/blank imports) and reuse histories are unbounded.",
 ["pkg/go/parse/process.go", "pkg/go/parse/file.go", "pkg/go/parse/parser.go", "internal/util/util.go"],
 [("argument selection", "pkg/go/parse/process.go extractArg/processPoCall"), ("AST walk", "pkg/go/parse/process.go processNode")],
 ["goparse.From*", "File.Entries"])

prop("C04", "Operations on in-memory catalogues never panic",
 "Comparing, sorting, searching, de-duplicating, merging (merge and concatenation), validating catalogues and converting headers never panic, for every combination of catalogues and settings, including empty catalogues, entries with any mix of singular and plural fields, and missing or malformed headers.",
 ["inputs", "configurations"], "all Entries/File/Header values x all merge settings (callbacks assumed not to panic; explicit index arguments assumed in range)",
 "Tests merge a few hand-written catalogues; the panics hide in field combinations (plural without forms, two untranslated entries, no header).",
 ["pkg/po/cmp.go", "pkg/po/entries.go", "pkg/po/entry.go", "pkg/po/merge.go", "pkg/po/msgcat_merge.go", "pkg/po/header.go", "internal/util/average.go", "internal/slices/slices.go"],
 [("string adaptation between singular and plural", "pkg/po/merge.go mergeEntryStrings"), ("plural-wise concatenation", "pkg/po/msgcat_merge.go msgcatMergePlurals"), ("header line parsing", "pkg/po/header.go EntryToHeader/parseAdvHeaderField"), ("averaging match ratios", "internal/util/average.go")])

prop("C05", "Writing any catalogue as PO or MO never panics",
 "Compiling any catalogue to PO or MO (to a writer, string, bytes or file) never panics, for every compiler configuration, including zero-value configurations, unknown location modes, absent loggers and temporary options.",
 ["inputs", "configurations"], "all non-nil File values x all PoConfig/MoConfig values x failing writers",
 "Tests use default configurations and well-formed entries; the space of configurations is a product of 20 fields.",
 ["pkg/po/compile/po_compiler.go", "pkg/po/compile/po_compiler_format.go", "pkg/po/compile/po_compiler_util.go", "pkg/po/compile/mo_compile.go", "pkg/po/compile/mo_compiler.go", "pkg/po/compile/po_config.go", "pkg/po/compile/mo_config.go"],
 [("entry rendering", "pkg/po/compile/po_compiler_format.go entryBuilder"), ("hash table insertion", "pkg/po/compile/mo_compile.go buildHashTable"), ("temporary options", "pkg/po/compile/*_config.go RestoreLastCfg")])

prop("C06", "Reading, merging and compiling leave the caller's data untouched",
 "Parsing a PO or MO byte buffer, merging or concatenating catalogues, and compiling a catalogue never modify the byte slices, files, entries or nested lists the caller passed in (not even unused capacity behind a slice), so a catalogue can be compiled twice, or shared between goroutines, with identical results. "
 "Methods documented to work in place (sorting, the Clean*/Cut*/Set family, header setters) are the only exceptions, and only when the caller invokes them directly.",
 ["inputs", "histories", "configurations"], "all inputs and settings of the PO/MO readers, Merge/MergeWithConfig, MsgcatMergeFiles, PoCompiler and MoCompiler output methods",
 "Aliasing damage shows only in the second use of a value or through spare slice capacity; tests use each value once.",
 ["pkg/po/compile/po_compiler.go", "pkg/po/compile/po_compiler_util.go", "pkg/po/compile/mo_compile.go", "pkg/po/merge.go", "pkg/po/msgcat_merge.go", "pkg/po/entries.go", "pkg/po/parse/po_parser.go"],
 [("header removal", "pkg/po/compile/po_compiler.go ToWriter, po_compiler_util.go writeHeader"), ("entry sorting", "pkg/po/compile/mo_compile.go writeTo"), ("slice appends on shared lists", "pkg/po/entries.go SolveMerge/CleanDuplicates, pkg/po/msgcat_merge.go")])

prop("C07", "The library keeps no hidden mutable global state",
 "No library operation writes package-level variables (or memory reachable only through them) after package initialisation, so operations on distinct catalogues are independent: they can run concurrently and the result of one call never depends on earlier calls.",
 ["schedules", "histories"], "all interleavings and histories of library calls on distinct values",
 "A data race or cross-call leak needs a particular interleaving or call order; the tests are sequential.",
 ["pkg/po", "pkg/po/parse", "pkg/po/compile", "pkg/go/parse", "internal/util", "internal/slices", "internal/color"],
 [("package-level tables", "pkg/po/merge.go sortMap, pkg/po/header.go defaults, pkg/go/parse/process.go translationMethods, internal/util/po_parse.go")])

prop("C08", "Library results are deterministic",
 "Reading, extracting, merging and compiling give the same output for the same input, configuration and file-system content: results never depend on map iteration order, the clock, random numbers, goroutine scheduling or memory addresses (terminal-colour environment settings aside, when highlighting is requested).",
 ["inputs", "schedules", "histories"], "all inputs and all executions",
 "Map-order effects vanish in most runs; a test that passes once says nothing about the next iteration order.",
 ["pkg/po", "pkg/po/parse", "pkg/po/compile", "pkg/go/parse", "internal/util"],
 [("ordered accumulation next to an index map", "pkg/po/entries.go SolveFunc, pkg/po/msgcat_merge.go"), ("header field order", "pkg/po/header.go ToHeader/ToConfig")])

prop("C09", "Library failures are always reported to the caller",
 "Whenever an operation the library depends on fails (opening, reading, seeking, parsing, encoding, writing, flushing), the library call reports it: it returns a non-nil error or, for parsers, records it so that Error/Errors return it; only the explicit ignore-errors settings may suppress it. "
 "Operations whose signature offers no error channel (to-string/bytes conversions into memory) are outside this property.",
 ["inputs", "fault_sequences"], "every failing underlying operation at every call site of the library",
 "Fault paths are not exercised by any test: it takes a failing writer, reader or nested parser at the right call.",
 ["pkg/po/parse", "pkg/po/compile", "pkg/go/parse"],
 [("error recording", "pkg/po/parse/*.go error, pkg/go/parse/parser.go error"), ("error wrapping", "pkg/po/compile/*.go error")])

prop("C10", "Command-line tools exit non-zero when anything failed",
 "In every command-line tool, when reading an input, parsing or validating it, or creating, writing or closing an output fails, the command returns that error and the process exits with a non-zero status; no failure is dropped on the way.",
 ["inputs", "fault_sequences", "configurations"], "every failing operation in every command under every flag combination",
 "No test runs the commands at all.",
 ["cli/xgotext/cmd", "cli/msgomerge/cmd", "cli/msgocat/cmd", "cli/msgofmt/cmd", "cli/msgounfmt/cmd", "cli/gotext-tools/cmd"],
 [("RunE closures and Execute", "cli/*/cmd/root.go")])

prop("C11", "Tools touch their output only after all inputs were read successfully",
 "A command-line tool creates, truncates or writes its output file only after every input has been read, parsed and validated; therefore an output path that is also an input keeps its content available to the run, and a bad input never destroys an existing output.",
 ["inputs", "fault_sequences", "configurations"], "every flag combination and every failing or aliasing input",
 "Needs output = input, or a failing input with an existing output; no test runs the commands.",
 ["cli/xgotext/cmd", "cli/msgomerge/cmd", "cli/msgocat/cmd", "cli/msgofmt/cmd", "cli/msgounfmt/cmd"],
 [("output opening", "cli/xgotext/cmd/output.go, cli/msgomerge/cmd/root.go, cli/msgocat/cmd/run.go")])

prop("C12", "Compiling to a file never overwrites without force",
 "Writing a PO or MO file through the library's to-file operations creates the file exclusively (it fails if the path exists) unless the configuration forces overwriting; when it does force, the old content is fully replaced.",
 ["configurations", "histories"], "all configurations and all states of the target path",
 "Open flags are a function of configuration evaluated before any byte is written; tests never call the to-file operations on an existing path.",
 ["pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compiler.go"],
 [("open flags", "ToFile in both compilers")])

prop("C13", "Each configuration option sets exactly the setting it names",
 "Every functional option changes exactly one setting of its configuration, the one it is named after, to exactly the given value and leaves every other setting alone; the whole-configuration options replace the whole configuration.",
 ["inputs", "configurations"], "all options x all values x all prior configurations",
 "Some 60 options exist; tests set a handful, and a swapped field is only visible through the one option that is not tested.",
 ["pkg/po/compile/po_config.go", "pkg/po/compile/mo_config.go", "pkg/po/parse/po_config.go", "pkg/po/parse/mo_config.go", "pkg/go/parse/config.go", "pkg/po/merge.go", "pkg/po/msgcat_merge.go", "pkg/po/header_options.go"],
 [("option closures", "the *With* constructors")])

prop("C14", "Temporary options are undone on every exit",
 "Every ...WithOptions operation leaves the parser's or compiler's configuration exactly as it was before the call, whatever options were given (including whole-configuration ones), whether the operation succeeds, fails or panics; restoring with nothing saved changes nothing.",
 ["configurations", "histories", "fault_sequences"], "all option lists x all prior configurations x success and failure of the operation",
 "No test calls a WithOptions method and then inspects the configuration.",
 ["pkg/po/compile", "pkg/po/parse", "pkg/go/parse"],
 [("ApplyOptions/RestoreLastCfg pairs", "*_config.go, config.go"), ("deferred restore", "*WithOptions methods")])

prop("C15", "Every comparison used for sorting is a total preorder",
 "Each exported comparison of entries, plural forms and locations is consistent: swapping the arguments flips the sign, it is transitive, and equal elements are interchangeable, for all field values including extreme integers; sorting and is-sorted therefore agree and give the same result for the same multiset up to ties.",
 ["inputs"], "all pairs and triples of entries, plural entries and locations",
 "Intransitive or overflowing comparisons need three specific elements or extreme values to show.",
 ["pkg/po/cmp.go", "internal/slices/slices.go"],
 [("comparators", "pkg/po/cmp.go Compare*")])

prop("C16", "Entry equality is an equivalence",
 "Comparing an entry with an identical entry reports equal, comparison is symmetric, and entries that differ in identifier, context, plural identifier, translation, flags or obsolete status are reported different.",
 ["inputs"], "all pairs of entries",
 "The tests compare through a reflective helper, never through the entry's own equality.",
 ["pkg/po/entry.go"], [("Entry.Equal", "pkg/po/entry.go")])

prop("C17", "Catalogue text cannot break out of its place in PO output",
 "In PO output every message text (identifiers, contexts, translations) and header field value lies inside one quoted string with quotes, backslashes and line breaks escaped, and every comment, flag, reference or heading text lies on a line that starts with '#'; so no content of an entry, header or title, whatever characters it holds, can end a string or comment early and inject other PO syntax (colour highlighting off).",
 ["inputs", "configurations"], "all catalogues x all PoConfig values without highlighting",
 "Injection needs a newline or quote in one particular field; tests use harmless text.",
 ["pkg/po/compile/po_compiler_format.go", "pkg/po/compile/po_compiler_util.go"],
 [("string escaping", "escapePOString and entryBuilder.string"), ("comment rendering", "entryBuilder.*Comment"), ("header rendering", "entryBuilder.BuildHeader")])

prop("C18", "The PO reader undoes exactly what the PO writer does to text",
 "For every character, the escape the writer emits inside a quoted string is decoded by the reader to the same character; every quoted string the writer can emit is read as one string token ending at its closing quote; and each keyword and comment marker the writer emits is recognised by the reader as the same construct: the context, identifier, plural identifier and translation (with the configured prefix and suffix) written behind a keyword, wrapped over lines or not, come back unchanged in the field they were written from.",
 ["inputs"], "all Unicode characters, all emitted strings, keywords and comment markers",
 "Round-trip tests use a few printable characters; a wrong escape for one control or non-ASCII character, or a string ending in a backslash, goes unnoticed.",
 ["pkg/po/compile/po_compiler_util.go", "pkg/po/compile/po_compiler_format.go", "internal/util/po_parse.go", "pkg/po/parse/po_parser.go"],
 [("escaping", "escapePOString"), ("lexer rules", "internal/util/po_parse.go PoRules"), ("comment patterns", "pkg/po/parse/po_parser.go regexps")])

prop("C19", "MO files are laid out exactly as their header says",
 "In every MO file the compiler writes, the magic number identifies the byte order actually used, and the string count, the offsets and sizes of the original, translation and hash tables and of the string areas given in the header equal the positions and sizes of what is actually written, for every number and size of entries and every configuration.",
 ["inputs", "configurations"], "all entry lists x byte order x hash table on/off",
 "Tests compile one catalogue in native order; the layout arithmetic quantifies over entry counts, string lengths and configuration.",
 ["pkg/po/compile/mo_compile.go", "internal/util/bytes.go"],
 [("layout computation", "pkg/po/compile/mo_compile.go writeTo"), ("magic and byte order", "internal/util/bytes.go")])

prop("C20", "MO output by default contains only finished, unique, sorted messages",
 "With the default configuration the MO compiler writes no fuzzy and no obsolete entry, no two entries with the same identifier and context, orders entries by identifier (preceded by the context, as MO lookup compares them), and leaves out nothing else.",
 ["inputs"], "all catalogues",
 "Tests compile catalogues without such entries.",
 ["pkg/po/compile/mo_compile.go", "pkg/po/compile/mo_config.go", "pkg/po/entries.go"],
 [("purging and sorting", "pkg/po/compile/mo_compile.go writeTo"), ("defaults", "pkg/po/compile/mo_config.go DefaultMoConfig")])

prop("C21", "Extraction takes identifier, plural and context from the right arguments",
 "For each gotext lookup function (Get, GetN, GetD, GetND, GetC, GetNC, GetDC, GetNDC) the extractor takes the message identifier, plural identifier and context from the argument positions of that function's signature, and takes nothing from functions or positions that are not message text.",
 ["inputs", "programs"], "all calls to the gotext functions in all programs",
 "The tests cover a few of the eight functions with one argument shape each.",
 ["pkg/go/parse/process.go"], [("argument position table", "pkg/go/parse/process.go translationMethods"), ("argument selection", "processPoCall/extractArg")])

prop("C22", "Every command-line flag has an effect",
 "Every flag a tool accepts can influence what the tool does: the value a user passes is read by the command after flag parsing, and reaches the code that reads inputs, processes or writes output; the output settings reach every place where the tool writes a catalogue, not just one of them.",
 ["configurations"], "all flags of all tools",
 "No test runs the commands; an ignored flag fails silently.",
 ["cli"], [("flag registration and use", "cli/*/cmd/*.go")])

prop("C23", "'-' means standard input or output in every tool",
 "In every tool that accepts an output path, the path '-' writes to standard output and never opens or creates a file of that name; in every tool that documents it, the input path '-' reads standard input.",
 ["configurations"], "all tools x all paths to file-opening operations",
 "No test runs the commands.",
 ["cli"], [("path dispatch", "cli/*/cmd/*.go")])

prop("C24", "Parsers and files can be reused",
 "Parsing twice with the same parser, or resetting a file object to new content, starts from a clean state: errors, collected nodes, package names and import findings of the earlier run do not affect the later one, so the later result equals that of a fresh object.",
 ["histories"], "all sequences of Parse/Reset/Entries calls on one object",
 "Tests use each parser once.",
 ["pkg/po/parse/mo_parser.go", "pkg/po/parse/po_parser.go", "pkg/go/parse/parser.go", "pkg/go/parse/file.go"],
 [("state reset", "Parse methods, File.Reset, File.Entries")])

prop("C25", "The library builds for every Go version and platform it declares",
 "The library compiles with the language version declared in its module file and uses no standard-library API newer than that version outside files guarded by a matching build constraint, on 32-bit and 64-bit platforms alike; each alternative implementation file selected by version constraints offers the same declarations.",
 ["configurations"], "all supported Go releases x GOOS/GOARCH pairs",
 "The tests are compiled with one toolchain on one platform.",
 ["go.mod", "internal/slices", "pkg/po/types_go1.23.go", "pkg/po/types_legacy.go"],
 [("version-constrained files", "internal/slices/slices_*.go, pkg/po/types_*.go")])

prop("C26", "Header fields survive conversion between header forms",
 "Converting a header to its configuration form and back keeps every known field under its own key: each standard header key is read into and written from the same configuration field, no known key is treated as an extra field or lost, and unknown fields are carried over in order.",
 ["inputs"], "all headers and header configurations",
 "A key misspelt or cross-wired in one of the tables shows only for that key; tests check none.",
 ["pkg/po/header.go"], [("key tables", "pkg/po/header.go knownHeaderFields, ToConfig, ToHeader")])

prop("C27", "Concatenation keeps exactly the messages the selection asks for",
 "Concatenating catalogues keeps precisely the messages defined more than the more-than bound and fewer than the less-than bound number of times (so the default keeps all, and 'unique' keeps those defined once), and a kept message carries over every part of its definition: flags, comments, references, identifier, context, plural identifier, translations and obsolete status.",
 ["inputs", "configurations"], "all lists of catalogues x all bounds",
 "The test concatenates with default bounds only.",
 ["pkg/po/msgcat_merge.go"], [("selection", "pkg/po/msgcat_merge.go MsgcatMergeFiles"), ("entry combination", "msgcatMergeEntry")])

prop("C28", "Opened files are closed on every path",
 "Every file the library or a command-line tool opens is closed on every path out of the function that owns it, error paths included, unless it is handed to the caller or kept in a structure for later use.",
 ["fault_sequences", "histories"], "every path from every open",
 "Leaks on error paths do not change results of a test run.",
 ["pkg/po/parse/mo_parser.go", "pkg/go/parse/file.go", "pkg/po/compile", "cli"],
 [("deferred closes", "NewMo, NewFileFromPath, ToFile, cli RunE closures")])

prop("C29", "The MO hash table is the one gettext looks up",
 "The hash stored for a message is the PJW hash of the bytes of its context and identifier, probing uses the standard second hash, and the table is always larger than the number of messages, so that every message is found by the standard lookup and insertion terminates, for every text including non-ASCII.",
 ["inputs"], "all messages and all message counts",
 "The hash test uses one ASCII string.",
 ["internal/util/hash.go", "internal/util/prime.go", "pkg/po/compile/mo_compile.go"],
 [("hash", "internal/util/hash.go"), ("probing and size", "pkg/po/compile/mo_compile.go buildHashTable/writeTo")])

prop("C30", "Writing a PO file and reading it back gives the same catalogue",
 "For every catalogue, reading the PO text the writer produced for it yields an equal catalogue (entries, order, comments, flags, references, plural forms, obsolete status).",
 ["inputs"], "all catalogues",
 "Tests round-trip a few catalogues.",
 ["pkg/po/compile", "pkg/po/parse"], [("writer and reader", "pkg/po/compile/po_compiler*.go, pkg/po/parse/po_parser.go")])

prop("C31", "Merging gives the same catalogue as GNU msgmerge and msgcat",
 "For every pair of catalogues, merging (with fuzzy matching as configured) and concatenating give the entries GNU msgmerge and msgcat give.",
 ["inputs"], "all pairs of catalogues",
 "Tests compare a few pairs.",
 ["pkg/po/merge.go", "pkg/po/msgcat_merge.go"], [("merging", "pkg/po/merge.go, pkg/po/msgcat_merge.go")])

prop("C32", "Reported source lines are the lines where the message text starts",
 "For every extracted message, the line number in its reference is the line of the string literal in the source file.",
 ["inputs"], "all Go sources",
 "Tests check a few positions.",
 ["pkg/go/parse/process.go", "internal/util/util.go"], [("line search", "internal/util/util.go FindLineFromReader")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
