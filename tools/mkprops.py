"""Writes /verif/properties.jsonl (kept as code only so that it stays readable)."""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []


def p(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": ["python/moz/l10n/" + f for f in files],
            "mechanism": [{"name": n, "where": "python/moz/l10n/" + w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


# ---------------------------------------------------------------- build
p("B01", "build output depends only on its inputs, never on leftovers or order",
  "After `moz-l10n build` finishes successfully, the bytes of every file it is responsible for below --target depend only on the config, source and localization files and the requested locales. Stale or torn files left in --target by earlier, failed or killed builds, the order in which locales are given, directory listing order, and buffer sizes make no difference, so a build that was killed or failed is repaired by running it again.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories of earlier builds (of older inputs, other locales, killed or failed at any system call) followed by one undisturbed build, and all listing orders and locale orders",
  "The tests build once into an empty temporary directory and compare with expected text; no test starts from a target that an interrupted or older build has left behind.",
  ["bin/build.py", "paths/config.py"],
  [("truncate-and-rewrite of each target", "bin/build.py:write_target_file"), ("iteration over sources and locales", "bin/build.py:cli")],
  ["files below --target"])
p("B02", "a build that reports success has written every target, merged correctly",
  "If `moz-l10n build` or `build-file` exits 0, then for every configured source file and requested locale the target file exists and holds exactly the source's messages in source order: the localization's value where one exists (for Fluent only if it has every attribute of the source message, and without extra attributes, terms excepted), otherwise the source's own value, or nothing for Fluent; comments and messages unknown to the source are left out, and files of unknown format are copied from the localization or else the source. A configuration, source or localization file which cannot be opened, read or parsed, a full disk, or an error in writing makes the command fail with a non-zero exit; it never turns into a silently incomplete, partly untranslated or wrong output.",
  ["fault_sequences", "inputs", "configurations"],
  "all fault sequences (errors, short reads and writes, full disk, files changed or removed by others) during a build over generated trees of all ten formats",
  "The tests run with a healthy disk on a few fixed trees; they cannot show that no single failing or short system call slips through as a success.",
  ["bin/build.py", "bin/build_file.py", "resource/parse_resource.py", "resource/serialize_resource.py"],
  [("merge of source and localization entries", "bin/build.py:write_target_file"), ("fallback and copying", "bin/build.py:cli")],
  ["exit status", "files below --target"])
p("B03", "build touches nothing outside its target",
  "Whatever goes wrong while `moz-l10n build` or `build-file` runs (I/O errors, full disk, kill, Ctrl-C), it never creates, modifies, renames or deletes anything outside --target (for build-file: the --target file, its parent directories and the --coverage-base directory). Source files, localization files and the configuration keep their exact bytes.",
  ["fault_sequences", "crash_points", "inputs"],
  "all fault sequences and kill points over generated trees, including sources or localizations inside the same parent as the target",
  "Tests look only at the files they expect to be written and never at the rest of the tree, nor under faults.",
  ["bin/build.py", "bin/build_file.py"],
  [("target path computation", "bin/build.py:cli"), ("copyfile/open for writing", "bin/build.py")],
  ["whole-disk snapshot before and after, and at every write"])
p("B04", "an interrupted build never leaves a partly written output file",
  "At every instant of a `build` or `build-file` run, and after it is killed or fails at any point, each localization file in the target that existed before or that the run writes holds either its complete previous contents or its complete new contents. In particular a localization that cannot be serialized, a full disk or a kill leaves no truncated file that a later step could ship.",
  ["crash_points", "fault_sequences"],
  "all kill points (every system call, and inside each write) and error faults during builds over an existing or empty target",
  "No test interrupts a write; a truncated output can only be seen by stopping the process between two system calls.",
  ["bin/build.py", "bin/build_file.py"],
  [("write of serialized output", "bin/build.py:write_target_file"), ("write of source-only output", "bin/build_file.py:cli")],
  ["each target file after every mutation"])
# ---------------------------------------------------------------- coverage
p("C01", "coverage.json counts exactly what the build left untranslated",
  "After a successful `build --coverage`, each requested locale's coverage.json lists, for every source file of a supported format built for that locale and no other, the number of source messages as `total` and exactly the ids of those which had no usable localization as `missing`. Running `build-file --coverage-base` once per file, in any order and repeated any number of times, accumulates the same coverage.json contents and the same target files, for files of supported formats, as one `build --coverage` of the same inputs.",
  ["histories", "inputs", "configurations"],
  "all sequences and repetitions of build-file runs and builds over evolving localization trees",
  "The tests check one or two fixed sequences; agreement between the two tools after arbitrary orders, repetitions and edits is a property of histories.",
  ["bin/build.py", "bin/build_file.py"],
  [("coverage collection", "bin/build.py:cli"), ("read-modify-write of coverage.json", "bin/build_file.py:cli")],
  ["coverage.json", "target files"])
p("C02", "coverage.json survives crashes, failures and overlapping build-file runs",
  "Whatever happens to a `build-file --coverage-base` run (kill, full disk, I/O error, unparseable input), coverage.json afterwards is a valid JSON report holding every entry that earlier runs had recorded, and a later build-file run succeeds. A report that cannot be read or is damaged makes the run fail and stays as it is. When runs overlap, the file is never malformed and never loses the entry of a run that had finished before the others started.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "all kill points and faults in sequences of build-file runs, and all system-call interleavings of two or three concurrent runs",
  "The tests run build-file alone to completion; torn or lost updates need a kill between two system calls or a second process interleaved with the first.",
  ["bin/build_file.py"],
  [("read-modify-write of coverage.json", "bin/build_file.py:cli")],
  ["coverage.json after every mutation and after each run"],
  [("coverage.json", "per-locale report accumulated across processes", "<coverage-base>/coverage.json")])
# ---------------------------------------------------------------- fix
p("F01", "fix replaces a file completely or not at all",
  "At every instant of a `moz-l10n fix` run, and after it is killed, interrupted or fails at any point, every file on disk holds either exactly the bytes it had before the run or its complete fixed form. A file that cannot be read, decoded, parsed or serialized keeps its bytes, and no temporary files are left behind unless the process was killed.",
  ["crash_points", "fault_sequences", "inputs"],
  "all kill points, interrupts, short writes and I/O errors while fixing generated trees that mix good, badly formatted, broken and unsupported files",
  "The tests fix good files on a healthy disk; a torn file only appears when the process stops between truncation and the end of the write.",
  ["bin/fix.py"],
  [("serialize before writing", "bin/fix.py:fix_file"), ("write-back", "bin/fix.py:fix_file")],
  ["each file after every mutation"])
p("F02", "fix keeps every message and converges after any interruption",
  "Fixing a file never adds, drops, reorders or alters a message, nor drops a comment: identifiers, values, attributes and placeholders parse the same before and after. After any history of killed, failed and repeated `fix` runs, one undisturbed run leaves exactly the tree that a single undisturbed run on the original files would have left (apart from hidden temporary files of killed runs), and a further run changes nothing.",
  ["histories", "crash_points", "inputs"],
  "all histories of interrupted and repeated fix runs over generated trees of all ten formats",
  "Tests compare one fixed input with one expected output per format; convergence after interruption is about all histories.",
  ["bin/fix.py", "resource/serialize_resource.py"],
  [("parse-serialize-compare", "bin/fix.py:fix_file")],
  ["file contents, parsed messages"])
p("F03", "fix reports failures honestly and only touches the files it was given",
  "`moz-l10n fix` exits 0 exactly when no file failed to be read, parsed, serialized or written (files of unsupported format or not in UTF-8 are skipped, not failures), and 1 otherwise; without --continue nothing after the first failing file is modified, with --continue every other file is still fixed. Only files selected by the arguments are modified, and keep their permissions: never ignored files, hidden files, files outside the given directory, config reference set or globs.",
  ["fault_sequences", "inputs", "configurations"],
  "all placements of read, write and open errors over generated trees, selected by directory, config or glob",
  "The tests have one failing file at a fixed position; whether every error at every system call reaches the exit code needs fault injection.",
  ["bin/fix.py", "bin/utils.py"],
  [("result counting", "bin/fix.py:fix"), ("path selection", "bin/utils.py:handle_paths")],
  ["exit status", "files after the run"])
# ---------------------------------------------------------------- lint
p("L01", "lint passes only if every selected file was really read and parsed",
  "`moz-l10n lint` exits 0 exactly when every selected file could be opened, read to its end and parsed as its format; one that is unreadable, vanished, broken or of unsupported format (unless skipped as unknown by --skip-unknown) makes it exit 1, wherever it is in the tree. It always goes on to check all remaining files and reports each bad one.",
  ["fault_sequences", "inputs", "schedules"],
  "all placements of I/O errors, short reads and concurrent removals or replacements over generated trees, selected by directory, config or glob",
  "The tests lint fixed files on a healthy disk; a swallowed error or an early stop is only visible when a chosen system call fails.",
  ["bin/lint.py", "bin/utils.py", "resource/parse_resource.py"],
  [("error classification", "bin/lint.py:lint_file"), ("aggregation", "bin/lint.py:lint")],
  ["exit status", "log lines"])
p("L02", "lint, compare and migrate --dry-run never change anything on disk",
  "`moz-l10n lint`, `compare` and `migrate --dry-run` never create, modify, rename or delete any file or directory, and never open one for writing, whatever errors they run into.",
  ["fault_sequences", "inputs"],
  "all inputs and fault sequences for the three read-only commands",
  "A test that checks output cannot see a file opened for writing or a directory created as a side effect on an error path.",
  ["bin/lint.py", "bin/compare.py", "bin/migrate.py", "migrate/__init__.py"],
  [("dry-run guard", "migrate/__init__.py:Migrate.apply")],
  ["every mutating system call"])
# ---------------------------------------------------------------- compare
p("K01", "compare separates missing from unreadable and miscounts neither",
  "For each localization given, `moz-l10n compare` reports as missing exactly the source messages which are not in the localization's file (all of them if the file does not exist), and reports a file which exists but cannot be read or parsed as an error rather than as missing or complete. An error in one file or locale never changes what is reported for any other.",
  ["fault_sequences", "inputs", "schedules"],
  "all placements of I/O errors, broken files and concurrent removals over generated localizations, for directory, config and JSON sources",
  "The tests compare fixed healthy trees; misclassifying a failing read as a missing or complete file needs an injected error.",
  ["bin/compare.py"],
  [("missing/error classification", "bin/compare.py:compare"), ("id collection", "bin/compare.py:msg_ids")],
  ["stdout (text and JSON)", "exit status"])
p("D01", "tool output is reproducible across processes and environments",
  "Running any moz-l10n command on the same inputs gives byte-identical standard output, reports and files in every process: hash randomisation, the system's locale encoding, the clock, the working directory (with absolute paths), file-system listing order and read sizes make no difference. In particular the order of messages in compare and coverage reports follows the source.",
  ["configurations", "schedules"],
  "all hash seeds, locale encodings, clock values, listing orders and buffer sizes, over generated trees and all commands",
  "The test environment pins PYTHONHASHSEED=0 and one encoding, so the tests can never see a dependence on them.",
  ["bin/compare.py", "bin/build.py", "bin/build_file.py", "bin/lint.py", "bin/fix.py", "migrate/__init__.py", "util/walk_files.py"],
  [("id sets", "bin/compare.py:msg_ids"), ("locale set", "bin/build.py:cli")],
  ["stdout", "log lines", "files"])
# ---------------------------------------------------------------- migrate
p("M01", "a migration never loses or alters an existing message",
  "Whatever a migration does and whatever fails while it runs (errors raised by migration functions, serialization errors, I/O errors, full disk, kill, Ctrl-C), every message, attribute and comment that a localization file held before is still there, unaltered and in the same relative order (in JSON, members of nested objects are kept together), and so are all files the migration does not name. A message that already exists under a target identifier is never overwritten.",
  ["fault_sequences", "crash_points", "inputs", "histories"],
  "all migrations built from the public helpers, over generated localization trees, under all faults and kill points",
  "The tests run a handful of migrations to completion; they cannot see what a failure between truncating and rewriting a localization file destroys.",
  ["migrate/__init__.py", "migrate/utils.py"],
  [("existing-entry check", "migrate/__init__.py:_create_entry"), ("write-back", "migrate/__init__.py:Migrate.apply"), ("insertion", "migrate/utils.py:insert_entry_after")],
  ["localization files after every mutation"])
p("M02", "a migration never replaces a localization file that it could not read",
  "If a localization file exists but cannot be read or parsed at the time of the migration (syntax error, wrong encoding, permission or I/O error), the migration leaves it byte for byte as it was; only where no file exists is a new one created. Failure on one locale or file never leads to damaged or half-written files in another.",
  ["fault_sequences", "inputs"],
  "all combinations of broken, unreadable and missing localization files, and read faults at every system call",
  "No test migrates a tree with an unparseable or unreadable localization file.",
  ["migrate/__init__.py", "migrate/utils.py"],
  [("resource loading", "migrate/utils.py:MigrationContext.get_resource"), ("creation of missing resources", "migrate/__init__.py:_get_empty_resource")],
  ["localization files"])
p("M03", "an interrupted migration can be run again and ends in the same place",
  "After any history of killed, failed and repeated runs of the same migration, one undisturbed run leaves the same files as a single undisturbed run on the original tree (apart from hidden temporary files of killed runs, and provided that no step copies from messages which a later step adds), and running it once more changes nothing. No message is ever added twice.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories of interrupted runs, with a kill or fault at every system call",
  "The tests apply each migration once.",
  ["migrate/__init__.py"],
  [("skip of existing entries", "migrate/__init__.py:_create_entry")],
  ["localization files"])
p("M04", "a migration reports exactly the additions it makes, dry or not",
  "The result of applying a migration names exactly the localization files it changed, with exactly the messages it added to each, and each of these can afterwards be read from that file, directly after the last of the messages that it was made from or named after (or those the migration placed there before it), before any comment of its own that follows there, where the file has any such message. A dry run on the same tree reports the same result and changes nothing, provided that no migration step depends on messages added earlier in the same run.",
  ["inputs", "histories", "fault_sequences"],
  "all generated migrations and trees, repeated runs, and error faults in between",
  "The tests check the returned mapping for a few fixed migrations; they never compare a dry run with the real run that follows it.",
  ["migrate/__init__.py"],
  [("change collection", "migrate/__init__.py:Migrate.apply")],
  ["return value", "localization files"])
p("M05", "every message due is added and holds what its step defines for its own locale",
  "Every message that a migration adds to a localization file holds what its step defines for the locale of that file: the given text, or the value, property or variant, with the comment and metadata where a whole message is copied, of the message to copy as the files of the same locale hold it, including messages added earlier in the same run, with only the given replacements applied. What other locales hold, other steps do, and earlier, failed or interrupted runs left, never shows in it. A run that reports success has added every message that its steps define and whose source the files of that locale hold, to every file of theirs that is there and can be parsed.",
  ["histories", "fault_sequences", "inputs"],
  "all generated migrations (copies within and between files and formats, of values, properties and variants, with replacements, chained), histories of runs, and a kill or fault at every system call",
  "The tests compare the result of a few fixed migrations on undisturbed trees of one or two locales.",
  ["migrate/__init__.py", "migrate/utils.py"],
  [("copies", "migrate/__init__.py:copy"), ("composed entries", "migrate/__init__.py:entry"), ("lookup", "migrate/utils.py:get_entry"), ("lookup of patterns", "migrate/utils.py:get_pattern"), ("resources of the locale", "migrate/utils.py:MigrationContext.get_resource")],
  ["localization files"])
# ---------------------------------------------------------------- paths
p("P01", "path discovery does not depend on the file system's listing order",
  "For a given directory tree, discovery selects the same reference root, localization base, locales and locale separator, and both discovery and configuration yield the same resource paths in the same order, whatever order the file system lists directory entries in. When several directories qualify equally, the one closest to the root is chosen.",
  ["schedules", "configurations", "inputs"],
  "all directory listing orders over generated trees, including ties between candidate reference and base directories",
  "Tests see the one listing order of the machine they run on.",
  ["paths/discover.py", "paths/config.py", "util/walk_files.py"],
  [("walk and tie-breaking", "paths/discover.py:L10nDiscoverPaths.__init__"), ("file iteration", "util/walk_files.py:walk_files"), ("glob expansion", "paths/config.py:L10nConfigPaths.__init__")],
  ["attributes and results of the paths objects"])
p("P02", "ignore rules are enforced or the walk fails; they are never dropped",
  "Walking a tree with an ignore file yields every non-hidden file that the git-ignore rules do not exclude exactly once, and none that they do. Rules containing a slash are anchored by a leading one; a directory given by name is searched even if a rule excludes that directory itself. If the ignore file exists but cannot be read (permission or I/O error, or not UTF-8), or the root or a directory below it that is not excluded cannot be listed, the walk, and any command built on it, fails before touching or reporting any file instead of proceeding as if nothing were ignored.",
  ["fault_sequences", "inputs"],
  "all ignore files and trees, with read faults at every system call on the ignore file",
  "No test makes the ignore file unreadable; the wrong behaviour is invisible without the fault.",
  ["util/walk_files.py", "paths/discover.py", "bin/fix.py"],
  [("ignore file loading", "util/walk_files.py:walk_files")],
  ["yielded paths", "files modified by fix"])
p("P03", "an unreadable config or include fails the command, never narrows it",
  "Loading an l10n.toml configuration yields the paths of the config itself and of everything it includes, each for all of the locales that any of these give for it; if any of these files cannot be read completely or parsed, loading fails. No command ever succeeds on part of a configuration, and shared or cyclic includes are read once.",
  ["fault_sequences", "inputs", "configurations"],
  "all include graphs (trees, diamonds, cycles) and all read faults, short reads and torn files on every config file",
  "The tests load intact configurations only.",
  ["paths/config.py", "bin/utils.py"],
  [("include loading", "paths/config.py:L10nConfigPaths.__init__")],
  ["configured paths", "exit status"])
p("P04", "reference and target paths map to each other, from wherever they are looked up",
  "For every configured or discovered reference file and every locale, the target path is the one that the configuration's template gives for it, and looking up the reference of that path gives back the file and the locale; a path that is no target has no reference. This holds for all wildcards, variables, included configurations and characters in file and directory names, after the base or the locales are set, and does not depend on the working directory, on whether paths are given as relative or absolute ones, or on the order in which directories list their entries.",
  ["fault_sequences", "inputs", "configurations", "environments"],
  "all configurations and trees, working directories, spellings of paths, listing orders and files that vanish while they are being looked for",
  "The tests use a few templates, absolute paths under a temporary directory with an ordinary name, and no other working directory.",
  ["paths/config.py", "paths/discover.py"],
  [("mapping", "paths/config.py:L10nConfigPaths.target"), ("reverse mapping", "paths/config.py:L10nConfigPaths.find_reference"), ("discovered paths", "paths/discover.py:L10nDiscoverPaths")],
  ["returned paths"])
# ---------------------------------------------------------------- library
p("R01", "parsing a path yields one complete version of the file, or raises",
  "Parsing a resource by its path returns the same resource as parsing the complete bytes of one version of the file that was at that path during the call, or raises an error. Short reads, interrupted reads and files replaced or removed by another process while parsing never yield a truncated or mixed resource, nor one built from the path name itself.",
  ["fault_sequences", "schedules", "inputs"],
  "all read sizes, read errors and replacement or removal of the file at every system call, for all formats",
  "Tests parse files that nobody else touches, on a disk that always delivers full reads.",
  ["resource/parse_resource.py", "formats/gettext/parse.py"],
  [("file reading", "resource/parse_resource.py:parse_resource")],
  ["returned resource"])
p("R02", "concurrent library calls do not affect each other",
  "Parsing, serializing, comparing and converting resources and messages in several threads at once, on separate or (for read-only operations) shared arguments, gives each caller exactly the result it would have got alone, under every interleaving.",
  ["schedules", "inputs"],
  "all interleavings of two to four caller threads at source-line granularity, over all formats and public conversions",
  "The test suite is single-threaded.",
  ["resource/parse_resource.py", "resource/serialize_resource.py", "message/parse.py", "message/serialize.py", "message/to_json.py", "message/from_json.py", "formats/mf2/message_parser.py", "formats/webext/parse.py"],
  [("absence of shared mutable state", "formats")],
  ["return values of every call"])
p("R03", "library calls are independent of history and leave arguments alone",
  "The result of a library call depends only on its arguments, not on earlier calls, on earlier calls that failed or were abandoned, nor on what callers did with earlier results; changing a returned object never affects any later result. Apart from the operations documented to modify a resource, no call changes its arguments, whether it succeeds or fails.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of library calls with arbitrary mutation of returned objects in between, including calls that fail or are interrupted by an exception at any source line",
  "Each test calls a function once on fresh arguments; caches, aliasing and leftovers of failed calls need sequences.",
  ["resource/parse_resource.py", "resource/serialize_resource.py", "resource/l10n_equal.py", "resource/add_entries.py", "message/parse.py", "message/serialize.py", "message/to_json.py", "message/from_json.py", "formats/webext/parse.py"],
  [("fresh construction of results", "formats")],
  ["return values and arguments of every call"])
p("R04", "serializer streams are independent, resumable and safe to abandon",
  "Serializers return iterators; however several of them (also over the same resource, or interleaved with parsing) are advanced, paused, abandoned or broken off by an exception, each one that is consumed to its end yields exactly the text that it would have yielded on its own. None of them modifies the resource, and an abandoned or failed one leaves no effect behind.",
  ["schedules", "inputs", "fault_sequences"],
  "all interleavings and abandonments of several serializer streams over all formats and options",
  "Tests always exhaust one serializer at a time.",
  ["resource/serialize_resource.py", "formats/fluent/serialize.py", "formats/gettext/serialize.py", "formats/properties/serialize.py", "formats/ini/serialize.py", "formats/dtd/serialize.py", "formats/inc/serialize.py", "formats/android/serialize.py", "formats/xliff/serialize.py", "formats/plain_json/serialize.py", "formats/webext/serialize.py"],
  [("generator-local state", "formats/*/serialize.py")],
  ["yielded strings, the resource before and after"])
# ---------------------------------------------------------------- pure functions: stated, not claimed
PURE = "Tests sample a few inputs; the property is over all of them."
p("N01", "every format round-trips: parse(serialize(r)) is equivalent to r",
  "For each format, serializing a resource which that format supports and parsing the result gives an equivalent resource, and parsing then serializing a file then parsing again is stable.",
  ["inputs"], "all resources representable in each format", PURE,
  ["formats", "resource/serialize_resource.py", "resource/parse_resource.py"], [("parsers and serializers", "formats")])
p("N02", "MessageFormat 2 syntax round-trips and rejects exactly the invalid messages",
  "Every valid message serializes to MF2 syntax which parses back to the same message, and the parser and validator accept exactly the messages that the MF2 specification allows.",
  ["inputs"], "all MF2 messages and source strings", PURE,
  ["formats/mf2/message_parser.py", "formats/mf2/serialize.py", "formats/mf2/validate.py"], [("parser", "formats/mf2/message_parser.py")])
p("N03", "JSON representations of messages and entries are lossless and match the schemas",
  "Converting a message or entry to its JSON representation and back gives an equal object, and the JSON validates against the published schemas.",
  ["inputs"], "all messages and entries", PURE,
  ["message/to_json.py", "message/from_json.py", "formats/mf2/to_json.py", "formats/mf2/from_json.py"], [("converters", "message/to_json.py")])
p("N04", "l10n_equal is an equivalence that ignores only non-localizable differences",
  "Comparing resources for localization equality is reflexive, symmetric and transitive, and tells apart any two resources that differ in messages, comments or metadata that matter.",
  ["inputs"], "all pairs and triples of resources", PURE,
  ["resource/l10n_equal.py"], [("comparison", "resource/l10n_equal.py:l10n_equal")])
p("N05", "add_entries merges exactly the new and changed entries of its source",
  "Merging entries from one resource into another adds or updates exactly the entries that are new or changed, at the documented positions, and returns how many.",
  ["inputs"], "all pairs of resources", PURE,
  ["resource/add_entries.py"], [("merge", "resource/add_entries.py:add_entries")])
p("N06", "format detection agrees with the parsers",
  "A file which some parser accepts under its usual extension or contents is detected as that format, and detection never raises.",
  ["inputs"], "all names and contents", PURE, ["formats/__init__.py"], [("detection", "formats/__init__.py:detect_format")])
p("N08", "Android locale names map to the qualifiers that Android resolves",
  "Each BCP 47 locale maps to the resource qualifier Android uses for it, including legacy language codes and script subtags.",
  ["inputs"], "all locale identifiers", PURE, ["paths/android_locale.py"], [("mapping", "paths/android_locale.py:get_android_locale")])
p("N09", "placeholder parsing keeps the source text of every message",
  "Parsing printf, web extension, Android, Fluent and Xcode placeholders in a message and serializing it again reproduces an equivalent source string.",
  ["inputs"], "all message strings", PURE,
  ["util/printf.py", "message/parse.py", "message/serialize.py"], [("placeholder parsing", "util/printf.py")])
p("N10", "plural category helpers build messages that select as intended",
  "Messages built with the plural helper have one variant for each category given and a catch-all other variant, on the number selector of the given variable.",
  ["inputs"], "all combinations of categories", PURE,
  ["migrate/utils.py"], [("construction", "migrate/utils.py:plural_message")])

with open(OUT, "w", encoding="utf-8") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
