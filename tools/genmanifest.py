#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below; every property is either claimed or not applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]

CHECKS = {
"C01": ("exhaustive panic analysis: every instruction that can panic in every reachable function, discharged by abstract interpretation over go/ssa value numbers with linear order facts (Fourier-Motzkin), loop invariants and nil-ness summaries",
  "All functions reachable from the MO reader's exported API, all paths; index, slice, nil, map-write, type-assertion, division, make and conversion-helper obligations, and that every size reserved is at most 64 KiB or at most the length of memory already held. Does not decide termination, nor the total over overlapping strings."),
"C02": ("exhaustive panic analysis: every instruction that can panic in every reachable function, discharged by abstract interpretation over go/ssa value numbers with linear order facts (Fourier-Motzkin), loop invariants and nil-ness summaries",
  "All functions reachable from the PO reader's exported API, all paths, with the lexer's, grammar's and regular expressions' contents used as facts (e.g. a match has its groups, the appended marker entry is there). Trusts participle; does not decide termination or stack depth."),
"C03": ("exhaustive panic analysis: every instruction that can panic in every reachable function, discharged by abstract interpretation over go/ssa value numbers with linear order facts (Fourier-Motzkin), loop invariants and nil-ness summaries",
  "All functions reachable from the extractor's exported API, all paths, nil configurations included. Trusts go/parser's documented tree shape (fields always set) and krfs; does not decide termination."),
"C04": ("exhaustive panic analysis: every instruction that can panic in every reachable function, discharged by abstract interpretation over go/ssa value numbers with linear order facts (Fourier-Motzkin), loop invariants and nil-ness summaries",
  "All functions reachable from the exported API of the catalogue package, all paths. Trusts the fuzzy-matching package and the standard library on the arguments given; callbacks, nil receivers and explicit index arguments are the caller's; does not decide termination."),
"C05": ("exhaustive panic analysis: every instruction that can panic in every reachable function, discharged by abstract interpretation over go/ssa value numbers with linear order facts (Fourier-Motzkin), loop invariants and nil-ness summaries",
  "All functions reachable from the exported API of the compilers, all paths, for all configurations including zero values. Highlighting's external lexer and colours are trusted; does not decide termination (the hash loop's is part of C29)."),
"C06": ("inclusion-based points-to and effect analysis over go/ssa (object- and call-site-sensitive, typed memory objects, store-to-load forwarding, spare-capacity tracking of appends)",
  "Every write in every function reachable from the library's operations is checked, in each calling context, against the objects a caller may own: list elements, spare capacity, pointees and maps, also through standard functions that write an argument. Covers all inputs; results are over-approximate in statement order. Caller-supplied callbacks and writers, and generic wrappers nothing in the library instantiates, are not followed."),
"C07": ("field-sensitive points-to and effect analysis over go/ssa (library)",
  "Sound up to reflection/unsafe and the listed pure external methods: every instruction outside package initialisation that can write a library package-level variable or memory reachable from one is enumerated through an inclusion-based points-to analysis (contexts: receiver/closure-cloned). Does not cover state inside the listed third-party objects (participle parsers, regexps, log.Logger), trusted to be safe as documented."),
"C08": ("deny-list of run-dependent calls and order-insensitivity analysis of every map iteration over go/ssa, on everything reachable from the exported API",
  "Every function reachable from the library's exported API and initialisation: no goroutine, channel, clock, random source, process, environment or address dependent call; every loop over a map (or other unordered list) must do the same in any order (constant search, writes under the loop's own key, commutative sums, or collecting into a list sorted before any other use). Trusts that the external parsers and matchers are deterministic."),
"C09": ("path-sensitive error-flow (typestate of error values) over go/ssa with summaries",
  "Every call in the library that can fail is tracked on every path of its function until its error is returned, recorded in the parser's error list, or passed to a function that does so; ignore-errors settings are the only exemption. Decides that errors are not dropped; does not decide that an error value's text is right, nor failures the standard library itself hides."),
"C10": ("path-sensitive error-flow (typestate of error values) over go/ssa with summaries",
  "As C09, for every function reachable from a tool's command, with the additional root rule that Execute's error ends the process with a non-zero status. Close of files opened for reading only is exempt."),
"C11": ("ordering dataflow: output-opening call sites vs. input-reading call sites on the control-flow graph, through call summaries",
  "No path of a tool's command reaches a read, parse or validation of an input after an output was opened or truncated. Decides order, not that the file system honours it."),
"C12": ("path-sensitive abstract interpretation of open flags against the force setting, over go/ssa value numbers",
  "Each to-file method is interpreted with joins and loop fixpoints on an unknown compiler and path; at every call that creates or changes a file the flag value is compared with what the path knows about force. All file-creating call sites of the library must be among those analysed. Trusts the operating system's O_EXCL and O_TRUNC."),
"C13": ("effect analysis by abstract interpretation over go/ssa value numbers (every option constructor applied to an unknown configuration)",
  "For every exported option constructor of the library the function it returns is interpreted on an unknown configuration; the resulting configuration must equal the old one except for the field named by the option, which holds the given argument. Decides for all values and configurations. Which field an option names is decided by name."),
"C14": ("abstract interpretation over go/ssa value numbers with panic edges and deferred calls",
  "Every WithOptions operation is interpreted with unknown options applied; on every normal and panicking exit the object's configuration must be the very value it had on entry. Assumes only that the caller's own option function does not itself panic."),
"C15": ("abstract interpretation of every comparator into a decision table over field ranks, checked for sign antisymmetry, reflexivity and transitivity on all rank triples",
  "Every exported comparison and less-function is interpreted on unknown operands; its result is a decision tree over comparisons of corresponding fields. The tree is closed under every consistent order of each field's three values, which decides the preorder laws for all field values. Comparators whose tests are not such comparisons fail closed. Sort stability and termination of the library sort are trusted to Go."),
"C16": ("abstract interpretation over go/ssa value numbers (equality on unknown entries: reflexive, symmetric, and false when one observed part differs)",
  "The equality methods are interpreted on two unknown entries: every path returning true must have established equality of each named part, and identical operands must give true. Covers the parts named in the statement; equality of nested lists is decided through the standard library's slices functions and library loops."),
"C17": ("abstract interpretation of the PO writer over go/ssa value numbers to a grammar of its output, and a finite automaton for PO lines run over that grammar (least fixpoint)",
  "The writing operations are interpreted with unknown catalogue and configuration (highlighting off); the output term (constants, unknown texts, loop unknowns) is run through an eight-state line automaton for all contents, following what the escaping code makes of quotes, backslashes and line breaks. Decides all texts, entry counts and configurations; character classes other than those three are not told apart; the configured obsolete prefix rune is assumed not to be a line break; trusts the models of the standard library's text functions."),
"C18": ("writer and reader models extracted from the source by abstract interpretation (escape function per character class, output automaton, lexer rules, grammar tags, comment classification) and compared; regular expressions decided by subset simulation of their automata",
  "Escaping is decided for every Unicode character the path conditions of the escaping code allow; the string and comment rules of the lexer for all written strings and lines; keywords and the fields they carry on every path of the writer. A comment line's extracted text is checked on one sample line per marker, its classification for all lines with the marker. That participle tokenises and parses as its rules and tags say, and strconv.UnquoteChar, are trusted."),
"C19": ("abstract interpretation of the MO writer over go/ssa value numbers (texts unknown, file content kept as a symbolic sequence of words and texts), header words compared with positions as linear expressions modulo 2^32",
  "The writer is interpreted on catalogues of a fixed number of messages with unknown texts and every combination of byte order and hash table; every header word must equal, as a linear expression in the unknown lengths, the position or size of what is written. Message counts are bounded (0-5, with and without plural forms); lengths, texts and settings are not."),
"C20": ("abstract interpretation of the MO writer with the constructor's default configuration over go/ssa value numbers, one path per combination of marks, equalities and orders of unknown messages",
  "Three messages with unknown identifiers, contexts, flags, marks and translations: on every path the messages written must be known finished, pairwise different and in order, and messages left out must be known unfinished or the same as another. The number of messages is bounded (three), their contents are not; library sorting is taken to sort by the given comparison."),
"C21": ("abstract interpretation of the extractor on a symbolic go/ast call node, compared with each lookup function's declared parameters",
  "For every lookup function the extractor's visitor is interpreted on a call node with unknown arguments; the entry recorded must take id, plural and context from the argument positions with these names in gotext's documented signatures, and unlisted functions must record nothing. Trusts the table of gotext signatures (written in the check)."),
"C22": ("field- and phase-sensitive value-flow (points-to plus flag origins, call strings for higher-order code) over go/ssa, per tool, from flag variables to decisions and outputs",
  "For every registered flag of every tool the value must be loaded in code the command runs after parsing and must reach a branch that does more than compute or refuse, or an impure operation, in the tool or the library; settings must reach each call that writes a catalogue; no two flags share a variable, none is overwritten. Presence tests, error texts and log lines do not count. Decides that a value has influence, not that the influence is the documented one."),
"C23": ("path-sensitive abstract interpretation over go/ssa value numbers of every command body, on unknown flags and arguments (typestate of '-' at each call that opens or writes a file)",
  "On every path of every command body, a call that opens or creates a file at a path made from the output flag, and a call that opens an input argument of a tool documenting standard input, needs a branch that excluded '-'; a writing call must be given os.Stdout wherever '-' is not excluded. xgotext takes '-' out of its list beforehand: only its use of os.Stdin is required. Library calls are opaque; loops are summarised."),
"C24": ("interprocedural dataflow over go/ssa per object type (upward-exposed field reads, must-set and may-write summaries to a fixpoint), dominance of reader positioning, value-number interpretation of temporary options",
  "For every type with Parse or Reset/Entries: no run reads a field that a run may have changed before setting it, whatever a run may change is set on every path, Reset sets every field (constants as in the constructors), kept readers are positioned before reading, package variables are not written, and after ParseWithOptions every setting has its earlier value. Fields are told apart by type and name; results handed out earlier are not followed."),
"C25": ("type-checking under every declared platform/version plus an API-level table of the standard library (go vet-style resolved-use query)",
  "All library packages are type-checked for 32- and 64-bit targets and both sides of each version constraint, and every resolved standard-library object used is looked up in the API manifests of Go's own api/ tables; alternatives are compared declaration by declaration. Trusts the toolchain's api tables and constraint semantics."),
"C26": ("abstract interpretation over go/ssa value numbers (header built from an unknown configuration and read back)",
  "Each header key written from a configuration field must be read back into the same field, with its value unmodified; no known key may reach the extra-field list and unknown keys must, in order. Decides key/field correspondence for all values, not text parsing of the header block."),
"C27": ("abstract interpretation of the concatenation over go/ssa value numbers, on scenes of catalogues with unknown bounds and one unknown message part at a time; the flags-to-bounds mapping of msgocat interpreted likewise",
  "On 65 scenes of up to 4 catalogues and 5 definitions of a message, every path must keep a message, once, exactly if it knows its count lies between the bounds; each part of a combined message must come from every definition that has it; default bounds keep all; --unique, --less-than, --more-than and --use-first reach the bounds. Longer lists follow the same code but are not analysed."),
"C28": ("typestate analysis (open/closed/escaped) of file values over go/ssa, all paths including panics of error exits",
  "Every os.Open/Create/OpenFile result in the library and tools is closed, returned, or stored on every path out of its owner. Decides releases in the owner; does not track files kept in structures after the handover."),
"C29": ("abstract interpretation of the hash loop and of table insertion over go/ssa value numbers; bit-level canonical forms (GF(2) polynomials) for the hash step; constant propagation for table sizes",
  "The hash step is compared bit by bit with the PJW step for every byte and running hash (no bound on texts); insertion is interpreted for 4 and 5 messages with unknown hashes, every probe step and store checked; table sizes are constant-propagated for 0 to 47 messages and must be primes larger than the count. Larger tables follow the same code but are not analysed."),
}
NA_GENERIC = "not decided yet by a check here"
NA = {
"C30": "Round-trip equality of catalogues quantifies over the runtime contents produced by a tokenizer and printer together; no static argument in reach bounds it. The static clauses that are in reach are claimed separately: the escape tables and token classes (C18), containment of text (C17) and determinism (C08).",
"C31": "Agreement with GNU msgmerge/msgcat is equality of computed results with an external program's behaviour over all catalogues (fuzzy ratios, positions); it has no structural necessary condition beyond those claimed in C06, C15, C20 and C27.",
"C32": "The line number is arithmetic over the scanner's runtime offsets and file contents; no shape of the code decides whether the counted newlines precede the literal.",
}
if os.path.exists(os.path.join(root, "tools", "na.json")):
    NA.update(json.load(open(os.path.join(root, "tools", "na.json"))))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "One checker (checker/, Go, built offline by setup.sh) decides every property from /repo's current source; ./check.sh ID runs one property. There are no hooks in /repo."}
for i in ids:
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
          "evidence_file": f"evidence/{i}.json", "technique": "static analysis: " + t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, NA_GENERIC)})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
