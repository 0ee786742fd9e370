#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=[observe] if isinstance(observe,str) else observe,hook_needed=None)))
POC=["pkg/po/compile/po_compiler.go","pkg/po/compile/po_compiler_util.go","pkg/po/compile/po_compiler_format.go"]
POP=["pkg/po/parse/po_parser.go","internal/util/po_parse.go"]
prop("C01","Any text survives being written to a PO file and read back",
 "Every string of any bytes, valid UTF-8 or text of another character set, used as msgid, msgctxt, msgid_plural, msgstr or msgstr[n] comes back byte-for-byte when an entry is written by the PO compiler (with word wrap on or off, live or obsolete) and the output is read by the PO parser, and the read reports no error.",
 ["inputs","configurations"],"all Unicode scalar values; all strings up to a length bound over an alphabet of lexically significant characters; strings of sizes around buffer boundaries; all five text positions; wrap on/off; live/obsolete",
 "Tests round-trip three or four fixed ASCII sentences; quoting and lexing go wrong only on particular character combinations (a final backslash, a non-ASCII unprintable rune, a newline next to a quote).",
 POC+POP,[("escaping of strings","pkg/po/compile/po_compiler_util.go escapePOString"),("string lexing/unquoting","internal/util/po_parse.go"),("word wrap","pkg/po/compile/po_compiler_format.go entryBuilder.string")],
 "compile.PoToString followed by parse.PoFromString")
prop("C02","Writing a catalog to PO and reading it back preserves every part of every entry",
 "For every catalog with distinct message identities whose comments, flags and references are representable on one line, writing it with the default PO options and parsing the result yields the same live entries in the same order followed by the same obsolete entries in the same order. Every entry keeps its context, id, plural id, plural forms with their indices, translation, translator comments, extracted comments, references, flags, previous-message lines and obsolete mark, none of which move to another entry (a plural message without any form reads back with two empty ones). The same holds with word wrap and when writer and reader agree on a custom obsolete prefix.",
 ["inputs","configurations"],"all catalogs of a few entries built from a menu of entry shapes (each optional part absent, single, multiple), in every order, plus long lists; wrap on/off; default and custom obsolete prefixes",
 "Tests round-trip two hand-written catalogs; attribution errors need particular neighbours (an obsolete entry before a live one, a comment before an obsolete entry, several flags).",
 POC+POP,[("entry layout","pkg/po/compile/po_compiler_format.go BuildEntry"),("comment attribution","pkg/po/parse/po_parser.go parseComments/parseObsoleteEntries"),("grammar","internal/util/po_parse.go")],
 "compile.PoToString / parse.PoFromString")
prop("C03","The PO reader accepts exactly the PO dialect and reads it correctly",
 "For every document made of well-formed PO lines the parser reports no error and yields the entries the PO format assigns to it: string continuation lines are concatenated, escapes decoded, several file:line references on one line and comma-separated flags split, comments attached to the entry they precede, `#~` entries (including `#~|` lines) read as obsolete, with LF or CRLF line ends and with or without a final newline. A document that is not well-formed (for example a msgid without msgstr, an unterminated string, a stray token) makes the parser report an error. Reader options drop exactly what they name: comments, all comments (with the obsolete entries, which are comments too), the header, obsolete entries, or duplicate entries.",
 ["inputs","configurations"],"all documents up to a number of lines over a menu of PO line forms (well-formed and malformed), with line-end and final-newline variants, under each reader option",
 "Tests only read back what the tool itself wrote, plus output of GNU tools for two catalogs; hand-edited or GNU-written files use forms the writer never produces.",
 POP+["pkg/po/parse/po_config.go"],[("grammar and lexer","internal/util/po_parse.go"),("comment and obsolete handling","pkg/po/parse/po_parser.go"),("reader options","pkg/po/parse/po_config.go")],
 "parse.PoFromString with options")
prop("C04","Every reader terminates with a result or an error on any input bytes",
 "For every byte sequence, the PO parser, the MO parser (any byte-order setting), the Go source extractor and the PO highlighter return - with a result or a reported error - without panicking, hanging, or allocating memory out of proportion to the input.",
 ["inputs"],"all byte strings up to a length bound over token alphabets of each format, all single-byte substitutions, truncations and header-field corruptions of valid sample files",
 "The test suite feeds no malformed input to any reader.",
 POP+["pkg/po/parse/mo_parser.go","pkg/go/parse/file.go","pkg/go/parse/process.go","pkg/po/compile/po_highlight.go"],
 [("MO table reading","pkg/po/parse/mo_parser.go"),("PO parsing","pkg/po/parse/po_parser.go"),("Go extraction","pkg/go/parse/process.go")],
 "parse.PoFromBytes, parse.MoFromBytes, goparse.FromBytes, compile.Highlight")
prop("C05","Compiling to MO and reading back keeps every live translation",
 "Compiling a catalog to MO and parsing the MO yields exactly the catalog's live, non-fuzzy messages (plus the header, even if fuzzy), ordered by identity, each with the same context, id, plural id and the same translation - singular string or all plural forms in index order, including messages with exactly one plural form. This holds for every byte order, with or without hash table, when the reader detects the byte order by itself or is told it; for a repeated identity the first live occurrence is the one kept; and with entry cleaning disabled every entry is written. A reader that requires sorted messages reports an error exactly if they are not in the order of their identities.",
 ["inputs","configurations"],"all catalogs of a few entries over a menu of message shapes (context, plural counts, fuzzy, obsolete, duplicates, empty strings, non-ASCII), size sweeps of entry counts and string lengths, all byte-order/hash/clean/sort settings of writer and reader",
 "Tests round-trip one three-entry catalog in native byte order.",
 ["pkg/po/compile/mo_compile.go","pkg/po/compile/mo_compiler.go","pkg/po/compile/mo_config.go","pkg/po/parse/mo_parser.go","pkg/po/entry.go","internal/util/bytes.go"],
 [("MO writer","pkg/po/compile/mo_compile.go writeTo"),("MO reader","pkg/po/parse/mo_parser.go"),("byte order","internal/util/bytes.go")],
 "compile.MoToBytes / parse.MoFromBytes")
prop("C06","MO output is a conforming GNU MO file in which every message can be looked up",
 "Every MO file produced with default cleaning and sorting has the GNU magic number in the chosen byte order, revision 0, in-range tables and NUL-terminated strings, and its original strings are sorted bytewise ascending without repeats. Every message it contains is found - with its own translation - both by binary search over the sorted table and, when a hash table was requested, by the gettext hash-table probing algorithm, and a string that is not in the catalog is found by neither.",
 ["inputs","configurations"],"all sets of ids over a small alphabet up to a size, including ids whose hashes collide and non-ASCII ids, catalogs of 0..N entries, long ids, all byte orders, hash on/off",
 "Tests hand one file to GNU msgunfmt, which does not use the hash table or the sort order.",
 ["pkg/po/compile/mo_compile.go","internal/util/hash.go","internal/util/prime.go","internal/util/bytes.go","pkg/po/cmp.go"],
 [("layout and offsets","pkg/po/compile/mo_compile.go writeTo"),("hash table","pkg/po/compile/mo_compile.go buildHashTable"),("hash function","internal/util/hash.go"),("order","pkg/po/cmp.go CompareEntryByID")],
 "compile.MoToBytes read by an independent MO reader")
prop("C07","A damaged MO file is reported, never silently misread",
 "When an MO file is truncated at any byte that cuts off part of a table or string it needs, or when its magic number is wrong or a table offset, string offset or length is changed to point outside the file, the MO parser reports an error instead of returning a catalog with missing, shortened or zero-filled messages. An undamaged file never produces an error, and each parse reports only the problems of that parse.",
 ["crash_points","inputs"],"every truncation point and every out-of-range substitution of every header and table word of a set of MO files in both byte orders, and every parse-again history on one parser",
 "No test parses a damaged MO file.",
 ["pkg/po/parse/mo_parser.go"],[("table and string reading","pkg/po/parse/mo_parser.go Parse/makeEntries"),("magic detection","pkg/po/parse/mo_parser.go defineOrder")],
 "parse.MoFromBytes and MoParser.Parse/Errors")
prop("C08","Merging covers the template exactly and never loses a translation",
 "After merging an existing catalog with a template, every template message appears exactly once and is not obsolete, every other live message of the result is absent except the existing catalog's header and what keep-previous-ids keeps, and no identity appears twice. Every existing translation that the template no longer needs is kept: its entry either is marked obsolete (with keep-previous-ids: stays live and is flagged fuzzy), or (with fuzzy matching) is flagged fuzzy and takes over the identity of a sufficiently similar new template message; without fuzzy matching nothing is ever guessed and no new message gets another message's translation. Messages translated by guessing are always flagged fuzzy. Any other new message comes in as the template has it (a plural message without forms may get as many empty ones as a header declares).",
 ["inputs","configurations"],"all pairs of small catalogs over a menu of identities (exact, similar, dissimilar, with context, with plural, obsolete, duplicate, header), every merge setting",
 "Tests compare one pair of catalogs with GNU msgmerge; coverage and loss depend on how similar, renamed and repeated identities combine.",
 ["pkg/po/merge.go","pkg/po/cmp.go","pkg/po/entries.go"],[("definition pass","pkg/po/merge.go mergeDef"),("template pass","pkg/po/merge.go mergeRef"),("similarity","pkg/po/cmp.go EntryIDMatchRatio")],
 "po.Merge / po.MergeWithConfig")
prop("C09","Merging keeps exact matches intact and takes references from the template",
 "For every message that both catalogs contain with the same context and id, the merged entry has the existing catalog's translation, translator comments and flags, unchanged and not newly fuzzy (as long as both are plural or both singular), and the template's references, extracted comments and plural id. An obsolete entry whose message reappears in the template becomes live again with its translation, and the existing header survives unchanged. A message that changed between singular and plural has the template's kind, keeps its translation (the first form, or as the first form) and everything else, and is flagged fuzzy.",
 ["inputs","configurations"],"all pairs of small catalogs with a shared identity over a menu of metadata and translation shapes on either side, every merge setting",
 "The one existing merge test ignores comments, references and the header.",
 ["pkg/po/merge.go"],[("exact match","pkg/po/merge.go MergeWithConfig"),("string transfer","pkg/po/merge.go mergeEntryStrings")],
 "po.Merge / po.MergeWithConfig")
prop("C10","Concatenation keeps every message and every translation of every input",
 "Concatenating catalogs yields each message that occurs in the inputs exactly once, in order of first occurrence, kept only if its number of definitions is more than the more-than bound and less than the less-than bound. A message defined once, or with use-first, is the first definition unchanged; otherwise equal translations are kept as they are, a translation is taken over where the other is empty, and differing non-empty translations (singular or any plural form, even if the definitions have different numbers of forms) are all contained in the result, each headed with the name of a file that has it, and the result is flagged fuzzy. References, comments and flags of all definitions are accumulated, and the result of such a combination is obsolete only if every definition is.",
 ["inputs","configurations"],"all sequences of up to three small catalogs over a menu of definitions of shared messages, every selection bound and use-first",
 "Tests concatenate one fixed triple of files without selection options.",
 ["pkg/po/msgcat_merge.go"],[("accumulation","pkg/po/msgcat_merge.go handleEntry/msgcatMergeEntry"),("selection","pkg/po/msgcat_merge.go MsgcatMergeFiles")],
 "po.MsgcatMergeFiles")
prop("C11","Catalog clean-up, lookup and validation operations do exactly what they say",
 "Removing fuzzy, obsolete or empty-id entries or the header, or resolving duplicates, keeps all other entries unchanged in their order; duplicate resolution leaves exactly one entry per identity (context and id) at the position of the first, with all references in order, and solving prefers a present translation over a missing one. Duplicate detection and validation report exactly the repeated identities (with index and original index) and the entries that have both a singular and plural translation; lookup by identity finds the first matching entry; setting an entry replaces that entry or appends it. Match ratios compare the parts they are named after (ids, contexts, translations), and the best match is the first entry with the highest ratio. The lookup of similar messages finds the first one whose id and context are both similar, in particular equal. The predicates on an entry (plural, context, fuzzy, header, comments) say what its fields say.",
 ["inputs","histories"],"every sequence of clean-up, lookup, set and solve operations up to a depth from catalogs over a small entry menu, explored breadth-first with the model in lockstep",
 "One test solves a single list; sequences of operations and combinations of flags are not tested.",
 ["pkg/po/entries.go","pkg/po/entry.go","pkg/po/file.go","pkg/po/plurals.go"],[("duplicate resolution","pkg/po/entries.go SolveFunc/SolveMerge"),("validation","pkg/po/entries.go CatchDuplicateEntries/Validate"),("file map","pkg/po/file.go Set/Load")],
 "methods of po.Entries, po.File, po.PluralEntries")
prop("C12","Sorting is a stable permutation in the documented order",
 "Every sort (entries in any sort mode or with a custom comparison, references, plural forms) returns exactly the same elements, ordered by its comparison, with equal elements kept in their original order; the default order is: header first, then live before obsolete, then non-fuzzy before fuzzy, then by references, then by identity. Each comparison is a consistent ordering (antisymmetric, transitive, zero for an element with itself), and the sortedness test agrees with it.",
 ["inputs"],"all permutations of multisets over an entry menu up to a size, lists of every length up to 70 in sorted, reversed, organ-pipe and equal-key patterns, all triples for the comparison laws",
 "The sort test shuffles lists of at most six elements with distinct keys.",
 ["pkg/po/cmp.go","pkg/po/entries.go","pkg/po/merge.go","pkg/po/locations.go","pkg/po/plurals.go","internal/slices"],[("comparisons","pkg/po/cmp.go"),("sort","pkg/po/entries.go SortFunc")],
 "po.Entries.Sort/SortFunc/SortMode, po.Locations.Sort, po.PluralEntries.Sort")
prop("C13","Equality of catalogs and entries detects exactly real differences",
 "Equality of files, entry lists, plural forms, locations and their lists is true exactly when every exported field of every element is equal in order; comparing one value with itself, a copy, or a value sharing its memory never changes the answer. Comparing two single entries is reflexive and symmetric and is true exactly when identity, translation, flags and obsolete mark agree.",
 ["inputs"],"all pairs of values over a menu in which each field takes several values, at each list position, as distinct, copied and aliased values",
 "The only equality test checks that a cyclic value does not overflow the stack; all other tests rely on this equality.",
 ["internal/util/equal.go","pkg/po/entry.go","pkg/po/file.go","pkg/po/plurals.go","pkg/po/locations.go"],[("structural equality","internal/util/equal.go"),("entry equality","pkg/po/entry.go Equal")],
 "Equal methods of package po")
prop("C14","Header fields are parsed, edited and written without loss",
 "A header entry made of `Key: value` lines is read into exactly those fields in order, with values kept whole (they may contain colons, semicolons, URLs or times) and the template mark taken from the fuzzy flag, and turning a header into an entry and back is the identity on its fields. Set replaces a key's value or appends it, Register only appends absent keys, Load returns the value or an empty string, so any sequence of them behaves like an ordered map. The number of plurals equals the nplurals value of Plural-Forms (2 if absent or invalid), and a header configuration converted to a header and back keeps every field it can represent, with any of the character sets that gettext supports.",
 ["inputs","histories"],"all header texts up to a number of lines over a menu of line forms, every sequence of Set/Register/Load up to a depth, all configurations over small value menus",
 "No test covers headers.",
 ["pkg/po/header.go","pkg/po/header_options.go"],[("parsing","pkg/po/header.go EntryToHeader"),("writing","pkg/po/header.go ToEntry/ToHeader"),("ordered map","pkg/po/header.go Set/Register/Load")],
 "po.EntryToHeader, po.Header methods, po.HeaderConfig")
prop("C15","Go extraction finds exactly the translatable calls with the right fields",
 "For every Go file that imports the gotext library (under its own name or an alias), extraction yields exactly one entry per call of Get, GetN, GetD, GetND, GetC, GetNC, GetDC or GetNDC whose message argument is a non-empty string literal, wherever the call occurs, with id, plural id and context taken from that method's argument positions with Go escapes decoded, and the file name and line of the message literal. A call whose arguments are not literals, or which is malformed, never affects the entries of other calls; files without the import yield nothing. With extract-all, every non-empty string literal outside imports that is not already used as id, plural id or context of such a call yields an entry as well, exactly once.",
 ["programs","configurations"],"all small Go programs built from a menu of call forms, argument forms, literal forms (raw, multi-line, escaped), aliases and nesting positions, with and without extract-all",
 "Tests extract from three fixed programs, none with a context, plural, alias, raw string or malformed call.",
 ["pkg/go/parse/process.go","pkg/go/parse/file.go","internal/util/util.go"],[("call recognition","pkg/go/parse/process.go isGotextCall"),("argument extraction","pkg/go/parse/process.go extractArg/processPoCall"),("line numbers","internal/util/util.go FindLineFromReader")],
 "goparse.FromString / FromBytes")
prop("C16","Extraction over a set of paths processes each wanted file exactly once",
 "Extracting from a list of files and directories yields the entries of every .go file named in or below them, each file (absolute path) once even if it is named or reached several times, in walk order, except the excluded files and those below excluded directories, after one header unless disabled; a path that does not exist or a file that does not parse is an error. A message found in several places becomes a single entry with all its references in order (or stays separate if duplicate cleaning is off), and re-running the same parser, or reusing a file object for new content, gives the same result as a fresh one.",
 ["inputs","histories","configurations"],"all path lists up to a length over a small directory tree (repeats, nesting, spelling variants), all subsets of excludes, all options, all reuse histories",
 "No test extracts from the file system or from more than one file.",
 ["pkg/go/parse/parser.go","pkg/go/parse/file.go","pkg/go/parse/config.go","internal/util/skip.go"],[("file selection","internal/util/skip.go"),("collection","pkg/go/parse/parser.go appendFiles/Parse"),("reuse","pkg/go/parse/file.go Reset")],
 "goparse.NewParserFromPaths / FromPath(s), goparse.File")
prop("C17","Library calls leave their inputs unchanged and repeat with the same result",
 "Compiling to PO or MO, merging, concatenating, solving or cleaning duplicates, looking up, comparing, validating and formatting never modify the catalog, entries, slices or bytes passed to them, under any option. Running the same call again, on the same compiler or parser object or after any other such calls on the same data, gives the same result, and results do not share memory such that a later call on one result changes another.",
 ["histories","configurations"],"every sequence of such operations up to a depth on shared data (with spare slice capacity), every compiler and parser option, compared with a fresh run on deep copies",
 "Tests run every operation once on fresh data.",
 ["pkg/po/compile/po_compiler.go","pkg/po/compile/po_compiler_util.go","pkg/po/compile/mo_compile.go","pkg/po/merge.go","pkg/po/msgcat_merge.go","pkg/po/entries.go","pkg/po/parse/po_parser.go"],
 [("PO compiler","pkg/po/compile/po_compiler.go ToWriter"),("MO compiler","pkg/po/compile/mo_compile.go writeTo"),("merging","pkg/po/merge.go")],
 "public functions of po, compile, parse with deep comparison before/after")
prop("C18","Temporary options apply to one call only",
 "Calling a ...WithOptions method of any parser or compiler behaves exactly like an object configured with those options and afterwards leaves the configuration exactly as before, for every set of options (including replacing the whole configuration) and every sequence of such calls, also when the call fails; restoring without a previous apply changes nothing. Options passed at construction take effect for every later call.",
 ["histories","configurations"],"every sequence of apply/restore/run-with-options steps up to a depth over all option constructors of the four configurations",
 "No test calls a WithOptions method.",
 ["pkg/po/compile/po_config.go","pkg/po/compile/mo_config.go","pkg/po/parse/po_config.go","pkg/po/parse/mo_config.go","pkg/go/parse/config.go","pkg/po/compile/po_compiler.go","pkg/po/compile/mo_compiler.go"],
 [("save and restore","*/…config.go ApplyOptions/RestoreLastCfg"),("WithOptions methods","pkg/po/compile/*_compiler.go, pkg/po/parse/*_parser.go, pkg/go/parse/parser.go")],
 "WithOptions methods and the exported Config field")
prop("C19","PO output options change only what they name",
 "For every catalog and every combination of output options, the PO output parses to the catalog changed only as the options say: no-location or never removes all references, file mode only their line numbers; prefix and suffix are added around each translation; omit-header leaves out exactly the header; managed header writes the header (optionally with title comments and fields, or a replacement configuration) exactly once and first; comment-fuzzy turns exactly the fuzzy entries into comments. Everything else - other fields, other entries, their order - is as without the option, and word wrap never changes content.",
 ["inputs","configurations"],"all combinations of the output options over catalogs from a menu covering header, fuzzy, obsolete, plural, context, references and comments",
 "Tests use only word wrap and omit-header on a catalog without header.",
 POC+["pkg/po/compile/po_config.go"],[("options","pkg/po/compile/po_config.go"),("layout","pkg/po/compile/po_compiler_format.go")],
 "compile.PoToString with options, parsed back and compared as text")
prop("C20","Highlighting only adds colour codes",
 "For every catalog and every highlighting style, PO output with highlighting, with the terminal colour sequences removed, is identical to the output without highlighting, and when the environment or the NoColor option allows no colour it is identical as it stands; highlighting a text reproduces that text. The tools colour only what they are told to, and without being told only what goes to a terminal and to nowhere else.",
 ["inputs","configurations"],"the catalogs of the round-trip property, under the built-in styles and styles with every subset of class names and properties, colour levels none/basic/256/truecolour",
 "The highlight test prints its output without checking it.",
 ["pkg/po/compile/po_highlight.go","pkg/po/compile/po_compiler_format.go","internal/color/color.go"],[("styles","pkg/po/compile/po_compiler_format.go applyStyle"),("escape codes","internal/color/color.go")],
 "compile.PoToString with PoWithHighlight")
prop("C21","A failed write is reported and existing files are not overwritten unasked",
 "When the output stream fails after any number of bytes, the PO and MO compilers return an error (unless told to ignore errors), having written at most a prefix of the correct output, and when they return no error the complete output has been written. Compiling to a path that already exists fails and leaves that file untouched unless forcing was requested, in which case the file afterwards holds exactly the new output; when opening the output fails nothing panics.",
 ["fault_sequences","inputs","configurations"],"a write fault after every possible byte count (error, short write, error on close-to-buffer boundary) for catalogs of several sizes, every force/ignore-errors setting, existing/absent/unwritable paths",
 "No test makes a write fail.",
 ["pkg/po/compile/po_compiler.go","pkg/po/compile/mo_compiler.go","pkg/po/compile/mo_compile.go"],[("buffered writing","pkg/po/compile/po_compiler.go ToWriter"),("file creation","pkg/po/compile/*_compiler.go ToFile")],
 "ToWriter with a fault-injecting io.Writer, ToFile on scratch paths")
prop("C22","Concurrent use on separate data gives the same results as sequential use",
 "Parsing, compiling, merging, concatenating, extracting, sorting and comparing performed at the same time by several goroutines, each with its own parsers, compilers and result data (input catalogs may be shared as read-only), give each goroutine exactly the result it would get alone, without data races, for every interleaving.",
 ["schedules"],"all interleavings of pairs of library operations up to a preemption bound at statement granularity, over every pair of operation kinds",
 "All tests are sequential.",
 ["pkg/po","pkg/po/compile","pkg/po/parse","pkg/go/parse","internal/util"],[("package-level state","internal/util/po_parse.go, pkg/po/parse/po_parser.go, pkg/po/merge.go, pkg/po/header.go")],
 "library calls run under a controlled scheduler")
prop("C23","The command-line tools preserve catalogs through merge, compile and decompile",
 "Running the tools on well-formed files gives the same result as the corresponding library operations: msgofmt compiles the given PO files (named, from standard input, or all PO files of a directory) into MO files that msgounfmt turns back into the same live messages; msgomerge output is the merge of its two files including the header, to standard output, to -o, or in place with -U; msgocat output is the concatenation of its input files (arguments, files-from list, directory) honouring its selection, use-first, sort, language and location options. Each successful run exits 0 and writes only the requested output.",
 ["inputs","configurations"],"all small catalogs from a menu through every tool and chain of tools, all documented flag combinations that affect content",
 "The command-line modules have no tests at all.",
 ["cli/msgofmt/cmd","cli/msgounfmt/cmd","cli/msgomerge/cmd","cli/msgocat/cmd"],[("msgofmt","cli/msgofmt/cmd/root.go"),("msgomerge","cli/msgomerge/cmd/root.go"),("msgocat","cli/msgocat/cmd/run.go, parse.go, flags.go"),("msgounfmt","cli/msgounfmt/cmd/root.go")],
 "the built command-line tools run on scratch directories")
prop("C24","A command-line run that fails says so and destroys nothing",
 "When a tool cannot complete - an input is missing or malformed, a catalog is invalid, the options conflict, or writing the output fails - it exits non-zero with a message on standard error and no panic, and a failure found before output begins (missing, malformed or invalid input, bad options, for msgofmt and msgounfmt an output file that exists without force) leaves every existing file, in particular the output path and the input files, exactly as it was. Input files that are not the named output are never modified.",
 ["fault_sequences","inputs","configurations"],"every tool with each input missing, malformed or invalid in turn, output absent/existing/equal to an input/unwritable, and output space running out after every block of bytes",
 "The command-line modules have no tests at all.",
 ["cli/msgofmt/cmd","cli/msgounfmt/cmd","cli/msgomerge/cmd","cli/msgocat/cmd","cli/xgotext/cmd"],[("output opening","cli/*/cmd/{root,run,output,join}.go")],
 "the built command-line tools run on scratch directories; exit status, stderr and directory contents")
prop("C25","xgotext writes the extracted template and joins without losing translations",
 "xgotext writes to its output (standard output, named file, output directory, default domain name) a PO template holding exactly the messages that library extraction finds in its inputs (arguments, files-from list, directory prefix, standard input, excludes, extract-all), with header, location, prefix and suffix options applied. With join-existing, the existing file's translations, comments and obsolete entries are kept and merged with the newly extracted messages.",
 ["inputs","configurations"],"small source trees from a menu through every combination of input selection and output options, and join with existing files from a menu",
 "The command-line modules have no tests at all.",
 ["cli/xgotext/cmd"],[("input selection","cli/xgotext/cmd/input.go"),("output","cli/xgotext/cmd/output.go"),("join","cli/xgotext/cmd/join.go"),("configuration","cli/xgotext/cmd/config.go")],
 "the built xgotext run on scratch directories")
prop("C26","Catalog files are interchangeable with GNU gettext",
 "PO and MO files pass unchanged between this library and other gettext tools. A well-formed catalog written as PO, in UTF-8 or a one-byte or EUC character set, is read by GNU gettext as the same messages (contexts, ids, plurals, translations, comments, references, known flags, fuzzy and obsolete marks), and a PO file written by GNU gettext, in any line width, is read back as the same messages; a compiled MO file is read by GNU msgunfmt and by the C library's gettext functions with the translation the catalog has for every message, with and without hash table and in either byte order, and MO files by GNU msgfmt are read here as the same messages. Merging and concatenating catalogs whose messages match exactly keeps the same messages and translations as msgmerge and msgcat.",
 ["inputs","configurations"],"all catalogs up to two entries over a menu of entry shapes, both orders of exchange, all writer options that affect syntax, all Unicode scalar values, line widths",
 "The tests never run another gettext implementation.",
 POC+POP+["pkg/po"],[("PO writer","pkg/po/compile/po_compiler_format.go, po_compiler_util.go"),("PO escapes","internal/util/po_parse.go"),("MO writer","pkg/po/compile/mo_compile.go"),("merge","pkg/po/merge.go")],
 "GNU gettext tools and libc gettext on files of the code under test")
prop("C27","Repeating an operation on its own result changes nothing",
 "Operations that bring a catalog into some state leave a catalog that is already in that state alone: merging the result of a merge with the same template again, concatenating a concatenation result alone, and cleaning, solving or sorting an already cleaned, solved or sorted list return it unchanged, entry for entry. The same holds for the tools: running msgomerge, msgocat or xgotext (also with join-existing, prefixes and suffixes) again on their own output gives the same messages, and from the second run on the same bytes.",
 ["histories","inputs","configurations"],"all pairs of small catalogs over an identity menu and over entries varying every field, all settings, two to three repetitions",
 "Tests run each operation once.",
 ["pkg/po/merge.go","pkg/po/msgcat_merge.go","pkg/po/entries.go","cli/msgomerge/cmd","cli/msgocat/cmd","cli/xgotext/cmd"],[("merge","pkg/po/merge.go"),("concatenation","pkg/po/msgcat_merge.go"),("clean-up and sorting","pkg/po/entries.go"),("join","cli/xgotext/cmd/join.go")],
 "the operations applied to their own results")
prop("C28","Files that are read and written again stay the same",
 "Whatever document the PO reader accepts, writing what was read and then reading and writing that again reproduces the same bytes, under each set of output options: nothing is gained, lost, escaped twice or re-ordered from one generation to the next. An MO file written by this library comes out byte for byte when it is read and compiled again with the same options, also by way of a PO file and through msgounfmt and msgofmt.",
 ["inputs","histories","configurations"],"all documents up to a bound over menus of lines, comments and string pieces, all entries varying every field, MO files in every layout",
 "Tests check one direction on fixed files.",
 POC+POP+["pkg/po/parse/mo_parser.go","pkg/po/compile/mo_compile.go"],[("PO writer","pkg/po/compile/po_compiler_format.go"),("PO reader","pkg/po/parse/po_parser.go"),("MO writer","pkg/po/compile/mo_compile.go"),("MO reader","pkg/po/parse/mo_parser.go")],
 "read, write, read, write")
prop("C29","Every way of asking for an operation gives the same result",
 "The result depends on what is asked, not on how: a catalog given as entries, file or file pointer and written to a writer, string, byte slice or file (new, or existing and forced), and a document given as string, bytes, reader, open file or path, give the same output, messages and errors through the package functions, the objects, temporary options, configuration values and options in any order; so do extraction from a path, paths, file, reader, string or bytes. A tool gives the same exit status, output and files for long and short options, options before and after the arguments and in any order, and when it is run as a subcommand of gotext-tools. An option given at its default (for tools: the one --help shows) is as good as none. Generated documentation is the same on standard output, in a file and in a tree of files.",
 ["inputs","configurations"],"all small catalogs and documents (well-formed or not) under every option through every entry point; all sets of up to two or three command-line options in every spelling",
 "The convenience functions and most spellings of options are never run by tests.",
 ["pkg/po/compile/compile.go","pkg/po/parse/parse.go","pkg/go/parse/parse.go","cli/gotext-tools/cmd"],[("package functions","pkg/po/compile/compile.go, pkg/po/parse/parse.go, pkg/go/parse/parse.go"),("options","pkg/po/compile/*_config.go, pkg/po/parse/*_config.go, pkg/po/merge.go, pkg/po/msgcat_merge.go"),("wrapper","cli/gotext-tools/cmd"),("flags","cli/*/cmd/flags.go")],
 "all entry points on the same request")
prop("C30","Logging, verbosity and ignoring errors never change a result",
 "A logger, verbosity or colour for terminals only never change what is written, read, extracted or returned, neither in the library nor in the tools, and asking to ignore errors does not change the result of an operation that has none. Every error a compiler or reader reports is also given to its logger, and without verbosity writing or reading that succeeds logs nothing, nor does a tool that succeeds complain.",
 ["inputs","configurations","fault_sequences"],"all small catalogs, documents and sources, well-formed or not, writers that fail at several points, all options, every tool with every set of up to two or three options",
 "Tests run with neither loggers nor verbosity.",
 ["pkg/po/compile","pkg/po/parse","pkg/go/parse","cli"],[("error and info","pkg/po/compile/mo_compile.go, po_compiler.go; pkg/po/parse/po_parser.go, mo_parser.go; pkg/go/parse/parser.go, file.go"),("file outputs","pkg/po/compile/*_compiler.go ToFile")],
 "results with and without diagnostics")
prop("C31","What rejects an input names it and the place in it",
 "Every error with which a reader rejects a PO document begins with the name the document was given and the line and column at which the live or the obsolete entries cannot go on, or says that the end comes too early; this holds for entries after the obsolete mark, for comments and for references too. An error of the MO reader names the file, one of a Go source the file, line and column, and what extraction says about a call it skips the file and line of that call. A tool that fails because of one of its inputs names that input as it was given, with the place, and no other input, and a catalog that is read but not valid is named with the message.",
 ["inputs","configurations"],"all documents up to a bound of lines, with any one or two faults in a complete catalog; all cuts and insertions in Go sources; MO files with any byte damaged; every tool with a bad input at every place and in several spellings",
 "Tests check at most that there is an error; which place it names depends on what precedes it: blank lines, obsolete marks, comments, other inputs.",
 POP+["pkg/po/parse/mo_parser.go","pkg/go/parse","pkg/po/file.go","cli"],[("positions of obsolete entries","pkg/po/parse/po_parser.go parseObsoleteEntries"),("errors of comments","pkg/po/parse/po_parser.go parseComments"),("file names in errors","pkg/po/parse/mo_parser.go error; pkg/po/errors.go; cli/*/cmd")],
 ["errors of the readers","standard error of the tools"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import re
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    s=re.split(r"(?<=[a-z0-9)])\. (?=[A-Z])",p["statement"])
    if len(s)>3: print(p["id"],"sentences:",len(s))
    try:
        pass
    except Exception as e: print(e)
