#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def where(m, files):
    """the file (of the anchored ones) that defines m"""
    import re
    for f in files:
        q = os.path.join("/repo", f)
        if os.path.isfile(q) and re.search(r"^[a-z].*\b%s\b" % m, open(q).read(), re.M): return f
    return files[0]
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [f for f in files if not f.endswith("/")], "mechanism": [{"name": m, "where": where(m, files)} for m in mech]}
    if state: a["state"] = [{"name": n.strip(), "where": files[0]} for n in state.split(",")]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Cleaning a name never touches memory outside its buffers, and always ends",
  "For every byte string used as a file name and every translation table, each cleaning step reads only the name and the table, writes only inside the result it allocated, and terminates. The result is a fresh NUL-terminated string and the input name is left untouched. In particular the room reserved for the result always covers the longest replacement the step can emit, whether it comes from a table row, the table's default, or a built-in replacement.",
  ["inputs", "configurations"], "every NUL-terminated name of any length, every translation table (any rows, any default, any recorded maximum), every filter setting",
  "The suite runs a few dozen short names through four fixed tables; overflow needs a table/name combination (long default, empty rows, encoded NULs) no test uses, and it does not run under a memory checker.",
  ["src/clean_string.c", "src/clean_utf_8.c", "src/table.c"], ["clean_safe", "clean_iso8859_1", "clean_utf_8", "clean_uncgi", "clean_wipeup", "clean_max_length", "clean_lower", "get_utf_8_width"],
  observe="return value and memory accesses of each cleaning function")
p("C02", "A rename never replaces a different existing file",
  "Whenever detox renames an entry, the new name either did not exist when it was examined immediately before the rename, or denoted the very same file (same device and inode, single link). If a different file already has the cleaned name, the entry keeps its old name and the other file is not affected.",
  ["inputs", "configurations", "histories"], "every path, every cleaning sequence and every result of examining the old and the new path",
  "The suite has no test of the renaming code at all; collisions depend on what the file system answers for both names (device, inode, link count), which no sample covers.",
  ["src/file.c"], ["parse_file"], observe="rename(2) calls and the lstat(2) results preceding them")
p("C03", "Dry run, listing and inline modes never change the file system",
  "With the dry-run option no rename is ever issued, whatever the names, options and directory contents; dry run prints the pair of names that the real run would use. The inline modes and the sequence-listing mode never rename anything either.",
  ["inputs", "configurations", "histories"], "every option set, every argument list, every directory tree",
  "No test executes the renaming code in dry-run mode; a single path that forgets the check is enough to break the guarantee.",
  ["src/file.c", "src/detox.c"], ["parse_file", "parse_dir", "parse_inline", "main"], observe="rename(2) calls, lines printed on stdout")
p("C04", "A rename changes only the last path component, inside the same directory",
  "Every rename detox issues goes from a path to a path with the identical directory part, and the new last component is exactly the result of the chosen sequence on the old last component and contains no directory separator. The special entries \".\" and \"..\" are never renamed, nothing is renamed when the cleaned name equals the old one, and the path handed back for further processing is the path under which the entry now exists.",
  ["inputs", "configurations"], "every path string (any number of separators, any bytes) and every sequence of filters",
  "No test executes the renaming code; the guarantee is about arbitrary path strings and filters whose output can contain any byte.",
  ["src/file.c"], ["parse_file", "is_protected"], observe="arguments of rename(2), the path used for descending")
p("C05", "Directory traversal processes exactly the eligible entries",
  "When a directory is processed, every entry that is not hidden and not ignored is examined without following links and is renamed if it is a directory or a regular file (or anything, with the special option); hidden and ignored entries, and links and special files without the option, are never touched. Subdirectories are entered exactly when recursion is on, under the name they have after their own rename, and never through a symbolic link. All entries the directory yields are considered.",
  ["inputs", "configurations", "histories"], "every directory content and order, every nesting, every ignore list, every option set, every result of examining an entry",
  "No test runs directory traversal; orders of entries, ignore matches and entry kinds are unbounded.",
  ["src/file.c", "src/filelist.c"], ["parse_dir", "ignore_file"], state="ignore list, directory stream", observe="lstat/opendir/rename calls per entry")
p("C06", "The safe filter replaces exactly the bytes listed in its table",
  "The safe filter's result is the concatenation, in order, of one piece per input byte: the table's replacement when the byte is listed, otherwise the table's default if it has one, otherwise the byte itself. Bytes outside ASCII are never listed in a table read from a file, so they are governed by the default alone.",
  ["inputs", "configurations"], "every name, every table",
  "Tests compare a handful of names against one built-in table.",
  ["src/clean_string.c", "src/table.c"], ["clean_safe", "table_get"], observe="returned string")
p("C07", "The default sequence yields safe names and is idempotent",
  "With the built-in default sequence every cleaned name is free of control characters, blanks, shell metacharacters and path separators, does not begin with a dash, underscore or hash, and contains no two adjacent separator characters (dot, dash, underscore). Cleaning an already cleaned name changes nothing.",
  ["inputs"], "every byte string given as a name",
  "Tests run the filters separately on sample names; the guarantee is about the composition on all names and about a second run.",
  ["src/clean_string.c", "src/builtin_table.c", "src/config_file_spoof.c", "src/sequence.c"], ["clean_safe", "clean_wipeup", "builtin_safe_rows", "spoof_config_file"], observe="name produced by the default sequence")
p("C08", "Wipeup reduces runs of separators to the one that takes precedence",
  "Leading dashes, underscores and hashes are dropped; after that each maximal run of dashes and underscores (and dots, when the trailing option is on) becomes a single character, the dot winning over the dash and the dash over the underscore, and every other byte is kept in order.",
  ["inputs", "configurations"], "every name, both settings of the option",
  "Tests sample about twenty names; runs of any length and mixture must reduce correctly.",
  ["src/clean_string.c"], ["clean_wipeup"], observe="returned string")
p("C09", "CGI decoding turns each escape into its byte and each plus into a blank",
  "Scanning left to right, a percent sign followed by two hexadecimal digits becomes the byte of that value, a plus becomes a blank, and every other byte (including an incomplete escape) is kept; decoded output is not decoded again. An escape for the zero byte ends the resulting name there.",
  ["inputs"], "every name",
  "Tests sample a few escapes; incomplete escapes at the end, both digit cases and all 256 values need the general statement.",
  ["src/clean_string.c"], ["clean_uncgi"], observe="returned string")
p("C10", "The lower filter lowercases ASCII letters and nothing else",
  "The result has the same length as the name, every ASCII uppercase letter is replaced by its lowercase letter and every other byte is unchanged.",
  ["inputs"], "every name",
  "Tests sample a few names.",
  ["src/clean_string.c"], ["clean_lower"], observe="returned string")
p("C11", "Length limiting keeps the extension and respects the limit",
  "A name within the limit (256 when none is given) is unchanged. A longer name without a real extension becomes its first limit bytes; one with an extension becomes a prefix of its body followed by the extension (or by the last two extensions when the next-to-last dot, not at the very start of the name, lies within five bytes before the last), with total length exactly the limit; if the extension alone does not fit, the name is unchanged and a warning is printed.",
  ["inputs", "configurations"], "every name of any length, every limit",
  "Tests sample a dozen name/limit pairs; boundary combinations of limit, extension position and length are unbounded.",
  ["src/clean_string.c"], ["clean_max_length"], observe="returned string")
p("C12", "UTF-8 cleaning decodes, transliterates and never lets malformed input through",
  "The name is read as a series of one- to six-byte UTF-8 sequences; each complete sequence is replaced by its table row, else by a fixed marker if it encodes zero or by an underscore if it is beyond the Unicode range, else by the table's default, else kept byte for byte. Every stray byte and every sequence that stops early becomes one underscore, and decoding resumes at the byte that broke it.",
  ["inputs", "configurations"], "every byte string, every table",
  "Tests sample a few dozen sequences against the built-in table; malformed combinations are unbounded.",
  ["src/clean_utf_8.c"], ["clean_utf_8", "get_utf_8_width", "is_utf_8_cont", "is_utf_8_start"], observe="returned string")
p("C13", "ISO 8859-1 cleaning replaces exactly the bytes of the upper half",
  "ASCII bytes are kept; each byte of the upper half is replaced by its table row, else by the table's default, else kept, and the pieces appear in input order.",
  ["inputs", "configurations"], "every name, every table",
  "Tests sample names against two built-in tables.",
  ["src/clean_string.c", "src/table.c"], ["clean_iso8859_1", "table_get"], observe="returned string")
p("C14", "A translation table behaves as a map from code to replacement",
  "Storing a replacement for a non-zero code makes lookups of that code return an equal private copy and leaves the lookup of every other code unchanged, for any table size, fill level and either search mode; storing fails only when the code is new and the table is full (or the code is zero), and then changes nothing. Looking up an absent code or zero finds nothing, and the recorded maximum length covers every stored replacement.",
  ["inputs", "histories"], "every table state reachable by any sequence of stores, every code, every replacement",
  "Tests store a few rows; collisions, wrap-around to linear search, overwriting and a full table need arbitrary histories.",
  ["src/table.c"], ["table_init", "table_put", "table_get", "table_free"], state="rows, used, max_data_length", observe="table_get results")
p("C15", "A sequence applies its filters in the order written, each to the previous result",
  "The cleaned name is the result of applying the sequence's filters one after the other, in order, each with its own settings and table, starting from the given name; an empty sequence yields the name itself. Each filter entry performs exactly the cleaning it names.",
  ["inputs", "configurations"], "every sequence of any length, every name",
  "Tests call filters one at a time; no test runs a sequence.",
  ["src/sequence.c", "src/filter.c"], ["sequence_run_filters", "filter_run"], observe="returned string")
p("C16", "Loading a table, built-in or resized, preserves every translation",
  "Copying a table into a new size and search mode yields a table in which every code has the same replacement as before and the same default, provided it fits. The built-in tables that the program uses contain exactly the translations of the table sources shipped with the program.",
  ["inputs", "configurations"], "every table and every target size; every code point",
  "Tests look at sizes and a few rows.",
  ["src/table.c", "src/builtin_table.c", "table/"], ["table_resize", "load_builtin_safe_table", "load_builtin_iso8859_1_table", "load_builtin_unicode_table", "load_builtin_cp1252_table", "filter_load_builtin_by_filename"], observe="table_get on the loaded table")
p("C17", "A translation table file is read row by row within its active section",
  "Rows are taken only from sections that are open for the current locale, comments are ignored, each row stores its replacement (quoted or bare) under its code, and a default line sets the default. Reading stays inside its line buffers for any file, and a file that cannot be opened or stored is reported as no table.",
  ["inputs", "fault_sequences"], "every file content and every outcome of opening and reading it",
  "Tests use only the shipped tables.",
  ["src/parse_table.c"], ["parse_table"], observe="resulting table")
p("C18", "The chosen sequence is the named one, else the default, else the first",
  "When a sequence name is requested, that sequence is used if it exists and otherwise none; without a request the sequence called default is used, or else the first one defined. Defining a sequence whose name already exists replaces its filters in place, any other definition is appended, so names stay unique and definition order is kept. Reading a configuration file touches no memory but its own, whatever the file contains, and an error of syntax is reported and ends the program with a failure.",
  ["configurations", "histories"], "every list of sequences of any length, every name, every order of definitions",
  "Tests look at the built-in list only.",
  ["src/sequence.c", "src/config_file_yacc.y", "src/config_file_yacc.c", "src/config_file_lex.l", "src/config_file_dump.c"], ["sequence_choose_default", "cf_append_sequence_list", "cf_append_filter", "parse_config_file", "yyparse", "yylex", "yyerror", "dump_config_file"], state="sequence list being built", observe="sequence used")
p("C19", "Inline mode filters the stream piece by piece without losing or splitting data",
  "A text stream (one without zero bytes) is cut into pieces that end at a newline or at the buffer limit, never between the bytes of one UTF-8 character; the output is, in order, the cleaned form of each piece (\".\" and \"..\" unchanged), each followed by a newline exactly when the piece had one, until the stream ends. A file that cannot be opened is reported. Reading never leaves the line buffer, for any content, including zero bytes.",
  ["inputs", "fault_sequences"], "every input stream of any length and content, every read failure point",
  "Tests use a few fixtures; buffer-boundary and zero-byte cases need specific alignments.",
  ["src/file.c", "src/clean_utf_8.c"], ["parse_inline", "is_utf_8_cont", "is_utf_8_start", "get_utf_8_width"], state="line buffer", observe="output stream")
p("C20", "File lists return everything stored, in order, once per pass",
  "A list returns its entries in the order they were added, each exactly once, then reports the end and starts over; adding an entry keeps all earlier ones for any number of entries and restarts the pass, and every stored name is a private copy.",
  ["inputs", "histories"], "every sequence of additions, retrievals and resets of any length",
  "Tests exercise one list of fixed size.",
  ["src/filelist.c"], ["filelist_init", "filelist_put", "filelist_get", "filelist_count", "filelist_reset", "filelist_free"], state="entries, capacity, position", observe="filelist_get results")
p("C21", "Running out of memory stops the program before anything is damaged",
  "Every allocation either succeeds with the full size requested or the program reports the failure and exits with an error; no code continues with a missing buffer.",
  ["fault_sequences"], "every allocation of every size failing at any point",
  "Tests fail one allocation through a test hook compiled only for coverage.",
  ["src/wrapped.c"], ["wrapped_malloc", "wrapped_strdup"], observe="return value, exit status")
p("C22", "Command-line options mean what the manual says, in any order and combination",
  "Each option sets exactly its own effect: dry run, recursion, special files, listing, verbosity count, sequence and configuration choice (the last one given wins, the sequence option winning over the environment), inline by option or by program name; no option switches on another's effect. All remaining arguments become the files to process, in order, and outside inline and listing modes at least one is required.",
  ["inputs", "configurations"], "every argument vector of any length",
  "Tests never run option parsing.",
  ["src/parse_options.c"], ["parse_options_getopt", "options_init"], observe="option record")
p("C23", "The built-in configuration defines the documented sequences",
  "Without any configuration file the program offers exactly the documented sequences, in the documented order, each made of the documented filters and tables, and ignores the documented entry.",
  ["configurations"], "every allocation layout; a single configuration, checked field by field against the documented one",
  "The existing test looks at part of the list.",
  ["src/config_file_spoof.c", "src/filter.c", "src/sequence.c"], ["spoof_config_file"], observe="sequence list")
p("C24", "Configuration files are consulted in the documented order",
  "With an explicit configuration file only that file is used and the program stops if it cannot be read; otherwise the first readable system file is used, then the user's files are applied on top in order, and only when none can be read is the built-in configuration used.",
  ["configurations", "fault_sequences"], "every combination of readable and unreadable files and of environment settings of any length",
  "Tests never load configuration files.",
  ["src/config_file.c"], ["config_file_load"], observe="files opened, resulting configuration")
p("C25", "Each command-line argument is processed once according to its kind",
  "Every argument is examined without following links: directories are cleaned and then traversed under their resulting name, regular files are cleaned, anything else only with the special option, and a missing argument is reported without stopping the rest. In inline mode each argument that is not a directory is filtered to the output, or standard input when there are none, and in listing mode nothing is processed.",
  ["inputs", "configurations", "fault_sequences"], "every argument list and every kind of file, every examination failure",
  "Tests never run the main program.",
  ["src/detox.c"], ["main"], observe="calls per argument")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
