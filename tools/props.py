"""The properties, as data.  make_meta.py turns them into properties.jsonl and MANIFEST.json."""

def P(id, title, statement, over, text, why, files, mech, note, technique, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                note=note, technique=technique, observe=list(observe))

MODEL = ("reference model kv/model.py over the frozen table kv/grammar.json, both independent of the code at run time")

PROPS = [
P("C01", "Writing a parsed kickstart and reading it back preserves it",
  "For every accepted kickstart in any supported syntax version, the text produced by writing the parsed result is "
  "accepted by the same version, yields the same commands, settings, list entries, scripts, package selection and "
  "passed-through sections, and writing it again gives the same text. Settings that have no effect in their "
  "combination may be left out.",
  ["inputs", "configurations"], "every accepted document, every syntax version from FC3 to F34 and RHEL3 to RHEL8",
  "Each command test checks a few hand-written lines and their expected output; combinations of options, odd values "
  "and cross-command interactions over 40 versions are a product no table of examples reaches.",
  ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/commands"],
  [("writer of each command", "pykickstart/commands/*.py __str__"), ("document writer", "pykickstart/base.py __str__")],
  "random accepted documents and single commands; limits: values needing quoting only for free-text options",
  "property-based testing: generated documents, write/read/write round trip",
  ["str(handler)", "handler.commands", "handler.scripts", "handler.packages"]),
P("C02", "Each syntax version accepts exactly its own commands and options",
  "For every syntax version, a command or option is accepted exactly if that version documents it: unknown or removed "
  "names are reported as parse errors, deprecated ones are accepted with a deprecation warning, and everything else is "
  "accepted without one.",
  ["inputs", "configurations"], "every (version, command, option) triple, plus names outside every version",
  "Tests sample versions per command; an inheritance slip in one version's table of commands or options is invisible "
  "to them.",
  ["pykickstart/handlers", "pykickstart/options.py", "pykickstart/commands"],
  [("version tables", "pykickstart/handlers/*.py"), ("option introduction, deprecation, removal",
                                                     "pykickstart/options.py")],
  "all triples enumerated, values generated; oracle is the " + MODEL,
  "property-based testing: stratified generation over all version/command/option triples against a frozen grammar"),
P("C03", "Every option sets exactly its documented setting, converted to its type",
  "Parsing an accepted command line sets, for each option and operand, exactly the setting documented for it, with the "
  "value converted to the documented type, and leaves every other setting of that command and of all other commands at "
  "its default.",
  ["inputs", "configurations"], "every accepted command line in every version",
  "Tests mostly assert the written text of some lines, not that nothing else changed, and only for few combinations.",
  ["pykickstart/options.py", "pykickstart/commands", "pykickstart/base.py"],
  [("argument parser to settings", "pykickstart/commands/*.py parse"), ("option types", "pykickstart/options.py")],
  "generated lines with one, several or repeated options; oracle is the " + MODEL,
  "property-based testing: generated command lines against a reference model of the resulting state"),
P("C04", "Bad arguments are rejected, documented combinations are accepted",
  "In every syntax version a command line is rejected with a parse error if a required option or operand is missing, a "
  "value is malformed or out of its documented choices or range, or documented exclusions or requirements between "
  "options are broken; otherwise it is accepted.",
  ["inputs", "configurations"], "every command line made of known options and operands in every version",
  "The set of contradictory or incomplete combinations is exponential in the options; tests list a handful.",
  ["pykickstart/commands", "pykickstart/options.py"],
  [("per-command validation", "pykickstart/commands/*.py parse"), ("required and typed options",
                                                                  "pykickstart/options.py")],
  "generated and mutated lines, both verdicts; oracle is the " + MODEL,
  "property-based testing: generated and mutated lines, accept/reject against a reference model"),
P("C05", "Storage commands that exclude each other are refused together, in either order",
  "In each syntax version, automatic partitioning, individually described storage and mount-point assignment that are "
  "documented to exclude each other are rejected when used in the same kickstart, whichever comes first, at the line of "
  "the later one; all other combinations are accepted.",
  ["histories", "configurations"], "every sequence of storage commands in every version",
  "Tests try single pairs, mostly in one order and for a few versions.",
  ["pykickstart/commands/autopart.py", "pykickstart/commands/partition.py", "pykickstart/commands/mount.py",
   "pykickstart/commands/logvol.py", "pykickstart/commands/raid.py", "pykickstart/commands/volgroup.py",
   "pykickstart/commands/reqpart.py"],
  [("conflict checks", "parse methods of the storage commands")],
  "all pairs in all versions with generated arguments, plus longer sequences",
  "property-based testing: generated command sequences against a model of exclusions; order symmetry"),
P("C06", "Repeated commands accumulate or override as documented",
  "When a command is repeated, list-like commands keep every entry in the order given, warning about (or, where "
  "documented, rejecting) duplicates, and single-value commands end up with the settings documented for the last line.",
  ["histories", "configurations"], "every sequence of lines of one command, under any of its names, in every version",
  "Tests feed one line at a time to a fresh command; state carried from one line to the next is rarely exercised.",
  ["pykickstart/base.py", "pykickstart/commands"],
  [("per-command data lists and settings", "pykickstart/commands/*.py parse"), ("dispatch", "pykickstart/base.py")],
  "sequences of 2 to 5 lines, state compared after each; oracle is the " + MODEL,
  "model-based (stateful) property testing: line histories against a reference model"),
P("C07", "Scripts are kept verbatim, in order, with the settings of their headers",
  "Every script section is kept in document order with its body exactly as written, its kind, interpreter, log file, "
  "chroot and error-handling settings and its line number, and is written back so that it reads the same. Sections must "
  "be closed by %end from Fedora 8 on, while before that a new section or the end of the file closes them.",
  ["inputs", "configurations"], "every document with script sections, any body lines, every version",
  "Tests use a few fixed bodies; bodies that look like comments, sections, directives or have odd whitespace are not "
  "covered.",
  ["pykickstart/sections.py", "pykickstart/parser.py"],
  [("script sections", "pykickstart/sections.py"), ("section reader", "pykickstart/parser.py"),
   ("script writer", "pykickstart/parser.py Script")],
  "generated scripts with adversarial body lines",
  "property-based testing: generated script sections against an expected-content oracle and round trip"),
P("C08", "The package selection is what the package lines say, the last mention winning",
  "After any package sections, the included and excluded packages, groups (with their levels) and environment are those "
  "the lines describe, with a later mention of a package, or a later mention of an excluded group or environment, "
  "overriding an earlier one, header options in effect per version, no duplicates, and contradictory or empty entries "
  "rejected; the written section names the same selection.",
  ["inputs", "histories"], "every sequence of package lines and section headers in every version",
  "The result depends on the whole history of inclusions and exclusions; tests use a few fixed lists.",
  ["pykickstart/parser.py", "pykickstart/sections.py"],
  [("package set bookkeeping", "pykickstart/parser.py Packages"), ("package header", "pykickstart/sections.py")],
  "generated sections with few names and many conflicting mentions against a set model",
  "model-based property testing: package-line histories against a set model"),
P("C09", "Including a file is the same as writing its lines in place",
  "Splitting a kickstart into files joined by include directives, nested to any depth, in the command part or inside "
  "sections, by absolute path or path relative to the including file, gives the same result as the single-file text. "
  "A missing included file is an error unless that was declared non-fatal, and with includes switched off the directive "
  "is skipped.",
  ["inputs", "configurations"], "every document and every way of cutting it into nested files",
  "Tests include one small file at one place; where the cut falls (inside a script, a package list, at a section border, "
  "in a sub-directory) is what matters.",
  ["pykickstart/parser.py"],
  [("include handling", "pykickstart/parser.py _handleInclude, _readSection, readKickstart")],
  "generated documents, random nested splits, on a scratch directory; metamorphic oracle (same state as the flat text)",
  "property-based testing: metamorphic (split versus flat document)"),
P("C10", "Appending preprocesses to exactly the text with the files spliced in",
  "Preprocessing a kickstart replaces each append directive by the contents of the file it names and leaves every other "
  "byte unchanged, whether given as text or as a file, to a text or to a new file, without changing the source. A "
  "directive without a location is a parse error and an unreadable location is an error, both with the line number of "
  "the directive.",
  ["inputs"], "every text with any number of append directives at any line, with or without final newline",
  "Tests append one fixed file.",
  ["pykickstart/parser.py", "pykickstart/load.py"],
  [("preprocessor", "pykickstart/parser.py preprocess*")],
  "generated texts and files; oracle is direct splicing", "property-based testing: generated texts against a splice oracle"),
P("C11", "Errors and objects carry the exact line number and the right error type",
  "The first bad line of a kickstart is reported as a parse error with its own line number in the error object and "
  "in the message, wherever the line stands and whatever blank lines, comments and sections precede it; "
  "deprecation and unknown-section warnings name the line they stem from, and every command, list entry and script "
  "reports the line it came from.",
  ["inputs", "histories"], "every document with a defect at any position",
  "Tests check the line number of errors on line 1 or in one fixed file.",
  ["pykickstart/parser.py", "pykickstart/errors.py", "pykickstart/sections.py", "pykickstart/base.py"],
  [("line counting", "pykickstart/parser.py _stateMachine, _readSection"), ("error formatting", "pykickstart/errors.py")],
  "generated documents with one planted defect of a dozen kinds; expected line known by construction",
  "property-based testing: planted defects, expected line by construction"),
P("C12", "With non-fatal errors every good line still counts and every bad one is counted",
  "When errors are declared non-fatal, parsing continues past bad command lines and section headers: the good lines have "
  "the same effect as in a kickstart without the bad ones, each bad line is reported once on standard error and counted "
  "once, and with fatal errors the first bad line stops parsing with everything before it applied and nothing after it.",
  ["histories", "fault_sequences"], "every document with bad lines injected at any positions",
  "Tests inject one bad line in one file.",
  ["pykickstart/parser.py"], [("error policy", "pykickstart/parser.py _tryFunc")],
  "generated documents with bad lines injected; oracle is the document without them",
  "property-based testing: metamorphic fault injection (bad lines inserted versus removed)"),
P("C13", "Handlers and parsers do not influence each other",
  "Any number of handlers and parsers, of the same or different syntax versions, used in any interleaving in one process "
  "behave as if each were alone: parsing with one never changes the settings, defaults, output or verdicts of another, "
  "and using a handler for a second kickstart starts from what it held, not from another handler's data.",
  ["schedules", "histories"], "every interleaving of operations on several handlers",
  "Each test uses one handler; sharing through class attributes, default arguments or module state only shows up with "
  "several.",
  ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/version.py", "pykickstart/options.py"],
  [("per-instance state", "constructors of handlers, commands and parsers")],
  "random interleavings of parse/write/reset on 2 to 4 handlers compared with fresh runs of each history alone",
  "stateful property testing: interleaved histories versus isolated runs"),
P("C14", "Version names, numbers and files identify one syntax version consistently",
  "Every supported version name in any accepted spelling maps to one version, that maps back to a name for the same "
  "version, and a handler made for it speaks exactly that version; a kickstart file's version comment decides the version "
  "(the development version if there is none), and an unknown name is a version error.",
  ["inputs", "configurations"], "every spelling of every version name, every placement of the version comment",
  "Tests try a few names.", ["pykickstart/version.py"],
  [("version mapping", "pykickstart/version.py")],
  "all versions times generated spellings; generated files with version comments; unknown names",
  "property-based testing: inverse laws and generated spellings"),
P("C15", "Resetting a command restores its pristine state and nothing else",
  "Resetting a command after any history makes it indistinguishable from a never-used one, in settings and in output, "
  "under every name it has, leaving all other commands untouched, and it can then be used again; restricting a handler "
  "to some commands makes all others silently ignored while the remaining ones work as before.",
  ["histories"], "every history of lines followed by resets or masks, in every version",
  "Tests reset one command after one line.", ["pykickstart/base.py"],
  [("reset and mask", "pykickstart/base.py resetCommand, maskAllExcept")],
  "generated histories against the reference model and a fresh handler",
  "stateful property testing: histories with resets and masks against a model"),
P("C16", "Comments, blank lines, spacing, quoting and option spelling carry no meaning",
  "Adding comments, blank lines or extra white space, quoting words differently, writing an option with = or a space, or "
  "reordering independent options of a line does not change what a kickstart means or whether it is accepted.",
  ["inputs"], "every accepted document and every such rewriting",
  "Tests use one canonical spelling per line.", ["pykickstart/parser.py", "pykickstart/options.py"],
  [("lexing", "pykickstart/parser.py _stateMachine"), ("option parsing", "pykickstart/options.py")],
  "generated documents and generated meaning-preserving rewritings", "property-based testing: metamorphic rewritings"),
P("C17", "The written kickstart is complete, ordered and headed",
  "The written text holds exactly the commands in use, each once, ordered by the documented write priority and "
  "independently of the order of unrelated lines in the input, followed by scripts, passed-through sections and "
  "packages, and starts with a generator comment, the platform comment if one is set, and the version comment.",
  ["inputs", "histories"], "every accepted document in every version",
  "Tests compare the output of single commands.", ["pykickstart/base.py"],
  [("document writer", "pykickstart/base.py __str__, _setCommand, _registerWriteOrder")],
  "generated documents; the written text is read back by an independent line reader",
  "property-based testing: generated documents, written text against the expected composition"),
P("C18", "The validator's exit status and report agree with the parser",
  "The validator reports an error for a file exactly if the library rejects it in the chosen version (the "
  "development version by default) or warns about a deprecated or dubious construct; each error is printed with "
  "its line, the exit status is the number of erroneous lines (at most 255, so never 0 when there is an error), -e "
  "stops at the first error, includes are followed only with -i, the input is unchanged and no files are left "
  "behind.",
  ["inputs", "configurations"], "every file, option combination and version",
  "Tests run it on a few fixed files.", ["tools/ksvalidator.py"],
  [("validator", "tools/ksvalidator.py main")],
  "generated good and bad files with every option combination, in process, plus real processes for the exit status",
  "property-based testing: differential (tool versus library)"),
P("C19", "Flattening produces one equivalent file without includes",
  "Flattening a kickstart yields a kickstart of the chosen version without include directives that means the same as the "
  "original with its includes, on standard output or in the given file, and fails with a non-zero status, a message on "
  "standard error and no output when the input cannot be read or parsed.",
  ["inputs", "configurations"], "every document cut into files, every version",
  "Tests flatten one file.", ["tools/ksflatten.py"], [("flattener", "tools/ksflatten.py main")],
  "generated split documents; oracle is the reference expectation and the library on the flat text",
  "property-based testing: differential (tool versus library)"),
P("C20", "The version difference tool reports exactly the differences",
  "For every pair of versions the tool lists exactly the commands and options that were added, removed or are "
  "deprecated in the target version relative to the source version, can list the versions, and refuses unknown "
  "ones.",
  ["configurations"], "every ordered pair of versions", "Tests run one pair.", ["tools/ksverdiff.py"],
  [("differ", "tools/ksverdiff.py")],
  "all ordered pairs, oracle is the frozen grammar", "property-based testing: all version pairs against a frozen grammar"),
P("C21", "The interactive shell accumulates lines as a kickstart would",
  "Any session of valid lines, invalid lines, includes and built-in commands ends with the same kickstart as the "
  "valid lines alone would give: invalid input is reported and leaves the session usable, .show prints the current "
  "kickstart, .clear forgets everything, and completion offers exactly the matching command and option names.",
  ["histories"], "every session of lines and built-in commands", "Tests drive a few fixed sessions.",
  ["tools/ksshell.py"], [("shell", "tools/ksshell.py")],
  "generated sessions against the library on the accepted lines", "stateful property testing: sessions versus the library"),
P("C22", "Sections the library does not interpret are passed through or refused as asked",
  "Add-on and other known foreign sections are written back with the same header words and exactly the body read; "
  "an unknown section is a parse error at its line, or, if so configured, a warning with its contents passed "
  "through, and in neither case do its lines affect commands, packages or scripts; a section that is not closed is a "
  "parse error where the next known section or the end of the text comes (before Fedora 8, it ends there).",
  ["inputs"], "every section name, arguments and body", "Tests use one add-on section.",
  ["pykickstart/sections.py", "pykickstart/parser.py"], [("pass-through section", "pykickstart/sections.py NullSection")],
  "generated section names, arguments and bodies", "property-based testing: generated sections, pass-through oracle"),
P("C23", "Loading returns exactly the file's text or a kickstart error",
  "Loading a kickstart from a path or over HTTP returns exactly its text, copying it to a file stores exactly its "
  "bytes, and every failure (a missing or unreadable file, a directory, a file that is not text, an HTTP error "
  "status, an unreachable or untrusted server, an unwritable destination) is reported as a kickstart error, "
  "leaving the process usable.",
  ["inputs", "fault_sequences"], "every content, location kind and failure", "Tests use one file and mocks.",
  ["pykickstart/load.py"], [("loader", "pykickstart/load.py")],
  "generated contents on a scratch directory and a loopback HTTP server with injected failures",
  "property-based testing with fault injection on a loopback server"),
P("C24", "Objects built programmatically equal the ones parsed from text",
  "A command or list entry created with its settings as keyword arguments holds those settings and writes the same text "
  "as one parsed from the equivalent line, lists of entries read back what was added, and a handler populated this way "
  "writes a kickstart that parses to the same state.",
  ["inputs", "configurations"], "every command, every combination of settings, every version",
  "Tests construct objects with default or a few keywords.", ["pykickstart/base.py", "pykickstart/commands"],
  [("constructors", "pykickstart/commands/*.py __init__"), ("calling a command with settings", "pykickstart/base.py")],
  "settings taken from generated lines by the model, given as keywords", "property-based testing: two construction routes compared"),
P("C25", "The option parser obeys its declarations",
  "For any history of declared, redefined, deprecated and removed options and any line, the option parser accepts "
  "exactly the options in force, converts values by their declared types (comma lists, booleans, mount points), "
  "applies choices, defaults, required and accumulating options as declared, and warns once for each use of a "
  "deprecated option; every rejection is a parse error with the line number.",
  ["inputs", "programs"], "every set of option declarations and every line", "Tests declare a few options.",
  ["pykickstart/options.py"], [("option parser", "pykickstart/options.py KSOptionParser")],
  "generated declarations and lines against a small model of the option parser",
  "property-based testing: generated declarations and lines against a model"),
P("C26", "Any text is either accepted or rejected with a kickstart error",
  "Whatever text is given, in any version and with any parser switches, parsing either succeeds or raises a "
  "kickstart error (a plain value error only for unbalanced quotes), never another exception and never without "
  "end. Afterwards the handler can still be written and used; what was accepted and written is accepted again.",
  ["inputs"], "every text in every version", "Tests feed mostly well-formed text.",
  ["pykickstart/parser.py", "pykickstart/options.py", "pykickstart/commands"],
  [("error policy", "pykickstart/errors.py, pykickstart/parser.py")],
  "grammar-aware mutation and token soup over all versions", "fuzzing: token-level mutation with an exception-type oracle"),
P("C27", "Replacing or adding commands, data and sections affects exactly those",
  "Commands and data objects substituted through the documented extension points are the ones used for exactly their "
  "names while all others behave as before, and a registered section receives exactly its header arguments, its line "
  "number and its body lines, once per occurrence, without disturbing the rest.",
  ["programs", "inputs"], "every choice of substituted names and registered sections",
  "Tests substitute one command.", ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/sections.py"],
  [("extension points", "pykickstart/base.py constructors, pykickstart/parser.py registerSection")],
  "generated substitutions and custom sections with recording subclasses",
  "property-based testing: generated substitutions with recording subclasses"),
P("C28", "Reading a kickstart in pieces is the same as reading it in one go",
  "Reading a kickstart as several texts or files one after the other into one handler, cut between commands and sections, "
  "with one parser or a new one each time, gives the same settings, entries, scripts, packages, warnings, conflicts and "
  "error counts as reading it whole, with line numbers counted within each piece; a piece that could not be read does not "
  "affect how later ones are read.",
  ["histories", "inputs"], "every document and every way of cutting it into successive readings",
  "Tests read one text per parser.", ["pykickstart/parser.py", "pykickstart/base.py", "pykickstart/sections.py"],
  [("reading state", "pykickstart/parser.py _reset, readKickstart, readKickstartFromString"),
   ("per-section state", "pykickstart/sections.py")],
  "generated documents and cuts, with unreadable texts between; oracle is the whole text",
  "property-based testing: metamorphic (successive readings versus one reading)"),
P("C29", "The same kickstart gives the same result in every process and environment",
  "Verdict, messages, warnings, settings and written text of a kickstart depend only on its text, version and the parser's "
  "switches: not on the hash seed, locale, time zone, current directory, other environment variables, interpreter "
  "optimisation, or what was read before in the process.",
  ["configurations", "inputs"], "every document in every process environment",
  "Tests run in one environment, in one order.",
  ["pykickstart/parser.py", "pykickstart/load.py", "pykickstart/base.py", "pykickstart/commands"],
  [("order of written entries", "pykickstart/commands/*.py __str__"), ("reading files", "pykickstart/load.py")],
  "batches of generated documents read here and in a new process with a generated environment",
  "property-based testing: differential (this process versus another environment)"),
P("C30", "A deep copy of a handler or of its parts is the same and independent",
  "A deep copy of a handler, command, list entry, script or package selection holds and writes the same as the original and "
  "compares equal to it where equality is defined; afterwards original and copy can each be used, reset, changed and "
  "written without affecting the other.",
  ["histories", "inputs"], "every handler state and everything done to original and copy afterwards",
  "No test copies a handler.", ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/commands"],
  [("object graph of handler, commands and entries", "pykickstart/base.py"),
   ("attribute forwarding", "pykickstart/commands/method.py")],
  "generated documents, copies, and separate later histories compared with handlers that were never copied",
  "stateful property testing: copy and original versus separate handlers"),
P("C31", "The generated reference describes exactly the commands and options there are",
  "The reference generated for a syntax version describes each command known up to that version in its latest form, with "
  "exactly the options that form accepts, each dated with the version that introduced it and marked deprecated exactly if "
  "it is; options no longer accepted appear only marked as removed. The help of any option parser tells the history of its "
  "options as they were declared.",
  ["configurations", "programs"], "every version, and every history of option declarations",
  "No test looks at the generated documentation.", ["docs/gen_commands_docs", "pykickstart/options.py",
                                                     "pykickstart/commands"],
  [("reference generator", "docs/gen_commands_docs"), ("option history in help texts",
                                                       "pykickstart/options.py add_argument, remove_argument")],
  "all versions, oracle is the frozen grammar; generated declaration histories against a model",
  "property-based testing: all versions against a frozen grammar; generated declarations against a model"),
P("C32", "The method view always mirrors the installation source in use",
  "Where the method command is a view (before F34), it names the installation source in use (the first of cdrom, harddrive, "
  "nfs, url, liveimg and hmc that was given or selected, among those the version has), choosing a source through it makes "
  "exactly that one the source in use, and reading or changing a setting through it reads or changes that setting of the "
  "source in use (of url when there is none) and of nothing else; a setting that source does not have is refused.",
  ["histories", "inputs"], "every history of source lines and of changes through the view or to the sources",
  "Tests set a few attributes on fresh handlers.", ["pykickstart/commands/method.py", "pykickstart/base.py"],
  [("attribute forwarding", "pykickstart/commands/method.py __getattr__, __setattr__, method")],
  "generated histories on two handlers, one changed through the view and one by hand; model of the source in use",
  "stateful property testing: changes through the view versus by hand, with a model of the source in use"),
P("C33", "Entries, sources and groups compare by what identifies them",
  "Two list entries of a command (partitions, users, repositories, network devices, time sources, ...), two installation "
  "sources of one kind, or two package groups compare equal exactly if the settings that identify them (such as the "
  "mount point, name, device or location) are the same, whatever their other settings and lines: in both directions, with "
  "!= always the opposite of ==, and never to something absent. Package groups are ordered by their names.",
  ["inputs"], "every pair of objects of one class and version",
  "Tests compare a few fresh objects with one setting changed.",
  ["pykickstart/commands", "pykickstart/parser.py"],
  [("comparison", "__eq__ and __ne__ of data and source classes; Group in pykickstart/parser.py")],
  "pairs of parsed objects, one with settings taken over from a third or changed; oracle is the table of identifying settings",
  "property-based testing: algebraic laws of comparison over generated pairs"),
P("C34", "Writing, asking, comparing and copying change nothing",
  "Looking at a handler - writing it or any command, entry, script, group or package selection, comparing or sorting entries "
  "and groups, reading settings and entry lists, asking for commands or help, copying it, making other handlers - any number "
  "of times, between kickstarts or from a section of the application's in the middle of one, shows the same each time and "
  "changes nothing: settings, entries, warnings, errors, conflicts and the written text are then those of a handler nobody "
  "looked at.",
  ["histories"], "every series of kickstarts, resets and changes with looks at any point",
  "Tests write a command once and look only at the text.",
  ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/commands"],
  [("writing", "__str__ of handlers, commands, data, Script and Packages")],
  "generated histories with looks inserted; oracle is the same history without them",
  "property-based testing: metamorphic histories (looks inserted versus left out)"),
]
