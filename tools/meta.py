#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, level="exploration", technique="", note="", observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level,
                technique=technique, note=note, observe=observe or [], state=state or [])


CLI = "the ftwin command: standard output, exit status"
T = [
    P("C01", "Reported groups are exactly the classes of identical files",
      "For any set of files and directories given on the command line, the text report lists exactly the classes of two or more considered regular files whose contents are byte-for-byte equal: equal files are in one group, "
      "files that differ anywhere (one bit, at any offset, whatever the size) are never in one group, and every file appears at most once. Empty files are equal to each other, and hard links count as files of their own.",
      ["inputs", "configurations"], "all trees, contents (near-identical ones included), argument lists, thread counts and memory-map limits",
      "The tests run a few fixed directories; the guarantee is about every combination of sizes, contents and arrival orders, including contents that differ at one position only.",
      ["src/ft_process.c", "src/ft_report.c", "src/ft_file.c", "src/ftwin.c"],
      [("size classes", "src/ft_process.c categorize_files"), ("hashing", "src/ft_process.c hashing_worker_callback, collect_hashing_results"), ("comparison before reporting", "src/ft_report.c ft_report_duplicates, compare_and_report_pair")],
      technique="property-based testing of the command against a reference grouping by contents", note="Random trees of up to 40 files with near-identical contents; the oracle reads the files itself. One run in eight under address and undefined-behaviour sanitizers.", observe=[CLI]),
    P("C02", "The report does not depend on threads, limits, order or output form",
      "For a fixed set of files, the reported groups and the exit status are the same whatever the number of threads, the memory-map limit, the memory and verbosity options, the dry-run option, the order of the arguments, "
      "the order in which the files were created, the output form (text or JSON) and the number of times ftwin is run.",
      ["inputs", "configurations", "schedules"], "all trees and all pairs of settings that only affect speed or presentation",
      "Tests compare single runs with fixed expectations; this is a relation between runs and includes thread timing.",
      ["src/ft_process.c", "src/napr_threadpool.c", "src/ft_report.c", "src/ft_report_json.c"],
      [("parallel hashing", "src/ft_process.c dispatch_hashing_tasks"), ("task queue", "src/napr_threadpool.c")],
      technique="metamorphic property-based testing: pairs of runs under different settings", note="Compares runs of the same binary with each other, so it does not need a model of grouping; thread schedules are those the machine produces.", observe=[CLI]),
    P("C03", "JSON output is a valid document with exact sizes, hashes, times and paths",
      "With JSON output (outside image mode), standard output is exactly one valid JSON array of the same groups: each has the exact size in bytes, the XXH3 128-bit hash of the contents in hexadecimal, and for every member its absolute path, its "
      "modification time in UTC (ISO 8601, whatever the local time zone) and whether it lies under the priority path, prioritized members first. This holds for file names with quotes, control characters and any valid UTF-8 text, "
      "and with verbose or progress options nothing else is mixed in.",
      ["inputs", "configurations"], "all trees, names, times, sizes, time zones and option orders",
      "Tests parse the JSON of one small tree; names, times and sizes are unbounded.",
      ["src/ft_report_json.c", "src/ft_file.c", "src/ft_config.c"],
      [("document", "src/ft_report_json.c ft_report_json"), ("hash text", "src/ft_report_json.c ft_hash_to_hex"), ("times", "src/ft_report_json.c ft_format_time_iso8601_utc"), ("verbose is switched off", "src/ft_config.c handle_json_option")],
      technique="property-based testing of JSON output against independently computed sizes, hashes and times", note="The hash oracle is the system's libxxhash, not the copy in the repository. Names that are not UTF-8 are a known finding.", observe=["standard output of ftwin --json"]),
    P("C04", "Filters select exactly the files they describe",
      "The files considered are exactly the regular files reachable from the arguments under the given options: size bounds are inclusive (a maximum of 0 means none), the ignore regex removes matching paths and whole matching directories, the "
      "whitelist regex keeps only matching file paths, listed names and (without the hidden option) names starting with a dot are skipped at any depth below an argument, and the case option applies to the regexes. Directories are entered "
      "unless recursion is off; symbolic links are skipped unless following is on, in which case they count as what they point to, broken links are skipped and loops end. Of an option given more than once the last counts, except that lists of names add up. Every such file takes part in the grouping and no other does.",
      ["inputs", "configurations"], "all trees with links, hidden entries and special files, and all combinations of filter options",
      "Tests try options one at a time on small trees; interactions of options, links and depth are untested.",
      ["src/ft_traverse.c", "src/ft_config.c"],
      [("traversal", "src/ft_traverse.c traverse_recursive, process_directory, process_file"), ("ignore list", "src/ft_config.c ft_hash_add_ignore_list"), ("regexes", "src/ft_config.c ft_pcre_compile")],
      technique="property-based testing against a reference traversal", note="The reference traversal is a separate implementation in Python; regexes come from the subset where PCRE and Python agree.", observe=[CLI]),
    P("C05", "Text report layout: sizes, separator, priority files first, each path once",
      "In the text report every group is the paths of its members joined by the separator character and ended by an empty line, preceded by one line with the human-readable size if requested; the size shown is the common size of the "
      "members within its own rounding. Members under the priority path (compared without regard to case when the case option is given) come before all others. On a terminal the report is the same with color codes added around paths and sizes and reset after them; anywhere else it contains no color codes.",
      ["inputs", "configurations"], "all trees, separators, priority paths and size displays",
      "Tests look for substrings in the output of fixed trees.",
      ["src/ft_report.c", "src/ft_config.c", "src/human_size.c", "src/ft_traverse.c"],
      [("printing", "src/ft_report.c format_and_print_duplicate, compare_and_report_pair"), ("order", "src/ft_config.c ft_file_cmp"), ("sizes", "src/human_size.c format_human_size")],
      technique="property-based testing with a parser of the exact report bytes", note="The order of members other than by priority is left open.", observe=["standard output of ftwin"]),
    P("C06", "Ignore rules have the meaning gitignore gives them",
      "A file is left out exactly when the built-in default rules and the .gitignore files of the directories from the argument down to the file say so with the meaning gitignore(5) documents: wildcards, character classes, double stars, "
      "anchored and directory-only patterns, escapes, comments, trailing blanks and negation, the last matching pattern of the innermost file deciding, and nothing below an ignored directory being looked at. "
      "Everything else is reported as usual.",
      ["inputs", "configurations"], "all trees and all sets of .gitignore files with well-formed patterns of up to a few kilobytes",
      "Tests cover about ten patterns; the pattern language and its interaction with nesting are unbounded.",
      ["src/ft_ignore.c", "src/ft_traverse.c"],
      [("patterns to regexes", "src/ft_ignore.c ft_glob_to_pcre, ft_ignore_add_pattern_str"), ("files", "src/ft_ignore.c ft_ignore_load_file"), ("decision", "src/ft_ignore.c ft_ignore_match")],
      technique="property-based testing against a reference implementation of gitignore", note="The reference implementation was compared with git itself on 3000 random trees. Patterns ending in a lone backslash, with named classes or with three or more stars in a row are not generated; leading blanks are not significant, as in ftwin.", observe=[CLI]),
    P("C07", "No input makes ftwin crash, hang or corrupt memory",
      "Whatever the names, contents and nesting of the files, the bytes of .gitignore files, and the option values, ftwin ends by itself with status 0, 1 or 255, without crashing, reading or writing outside its memory or running forever. "
      "If it succeeds with JSON output, the output is a well-formed document.",
      ["inputs", "configurations"], "all file names (any bytes), .gitignore bytes, option values and tree shapes",
      "Memory errors depend on lengths and bytes that fixed examples do not have.",
      ["src/ft_ignore.c", "src/ft_config.c", "src/ft_traverse.c", "src/human_size.c", "src/ft_report_json.c"],
      [("buffer sizing", "src/ft_ignore.c ft_glob_to_pcre"), ("option validation", "src/ft_config.c"), ("line reading", "src/ft_ignore.c ft_ignore_load_file")],
      technique="grammar-and-bytes fuzzing of the command under address and undefined-behaviour sanitizers", note="Three runs in four are sanitized; pool allocations are turned into separate heap blocks so that overruns of small buffers are seen.", observe=["exit status, sanitizer reports"]),
    P("C08", "Comparison and hashing of contents are exact in every reading mode",
      "Comparing two files of the same size says equal if and only if every byte is equal, and hashing a file gives the XXH3 128-bit hash of all its bytes; both hold for every size (also above 4 GiB), whichever of memory mapping and "
      "buffered reading the size limit selects, and also when reads return fewer bytes than asked for, are interrupted, or mapping fails.",
      ["inputs", "configurations"], "all sizes, difference positions and limits",
      "Tests use a handful of small files; the interesting positions are buffer and block boundaries and the last byte.",
      ["src/ft_file.c", "src/checksum.h"],
      [("mapped comparison", "src/ft_file.c small_filecmp"), ("buffered comparison", "src/ft_file.c big_filecmp"), ("hashing", "src/ft_file.c checksum_file")],
      technique="property-based testing of the comparison and hash functions with single-bit differences; differential hashing with libxxhash", note="Uses the public functions of the file module through a driver.", observe=["filecmp and checksum_file results"]),
    P("C09", "Human-readable sizes are read and written correctly",
      "A size given as a number with an optional fraction and an optional unit (B, K, M, G, T, in either case, powers of 1024) is read as that many bytes rounded down; anything that is not a number, has an unknown unit, is negative, or is too large to represent is refused. "
      "A printed size uses a unit in which it is within its own rounding of the real number of bytes, larger files never print as smaller sizes, and what is printed in units up to TiB can be read back to a value within that rounding.",
      ["inputs"], "all strings and all byte counts",
      "Tests have a dozen strings.",
      ["src/human_size.c", "src/ft_config.c"],
      [("parsing", "src/human_size.c parse_human_size"), ("formatting", "src/human_size.c format_human_size")],
      technique="property-based testing against exact integer arithmetic, with a round trip", note="120 strings and 80 numbers per case.", observe=["parse_human_size and format_human_size results"]),
    P("C10", "Every spelling of an option means the same; invalid ones are refused",
      "Short, grouped, attached, long and long-with-equals spellings of the documented options are equivalent, in any order, with the last value deciding for options given more than once (ignore lists add up) and the double dash "
      "ending the options. An unknown option, a missing or invalid value, a regex that does not compile, a file argument that does not exist or the absence of files gives a nonzero exit status, a message and no report; help (which lists every option) and version print something and exit with 0; "
      "the first of these on the command line decides.",
      ["inputs", "configurations"], "all option sequences and spellings",
      "Tests use one spelling of each option and few combinations.",
      ["src/ft_config.c", "src/ftwin.c"],
      [("option loop", "src/ft_config.c ft_config_parse_args, process_options"), ("validation", "src/ft_config.c handle_numeric_option, handle_image_options"), ("usage", "src/ft_config.c print_usage_and_exit")],
      technique="property-based testing of random spellings against a model of the options", note="Options are checked through their effect on the report.", observe=[CLI]),
    P("C11", "ftwin never changes the file system",
      "Running ftwin in any mode (text, JSON, image, archive, dry run, verbose, with refused options) changes nothing: names, types, contents, permissions, owners, links and modification times of everything in the scanned trees and in the "
      "working, home and temporary directories are as before, and no file created by it remains anywhere.",
      ["inputs", "configurations"], "all trees, modes and options",
      "No test looks at the tree after a run.",
      ["src/ft_file.c", "src/ft_traverse.c", "src/ft_report.c", "src/ft_archive.c"],
      [("files are opened for reading only", "src/ft_file.c"), ("temporary files are removed", "src/ft_report.c cleanup_comparison_paths")],
      technique="property-based testing with before/after snapshots of the file system", note="Change times are part of the snapshot, so a modification that is undone is seen. Access times are left open.", observe=["stat data and contents of everything in a scratch area; log of modifying calls"]),
    P("C12", "I/O faults never produce wrong groups or hide unaffected duplicates",
      "When files cannot be opened, read or examined, directories cannot be listed (from the start or part way), memory maps fail, reads are short or interrupted, or threads cannot be created, ftwin still ends by itself, "
      "never reports files of different contents as equal, and still reports all identical files that the fault does not touch; faults that can be worked around (failing maps, short or interrupted reads, entries without a type) change nothing. If the "
      "report cannot be written in full (standard output is full, limited, closed or not ready), the exit status is nonzero.",
      ["fault_sequences", "inputs", "schedules"], "all placements of the listed faults over the files, directories, calls and threads of a run",
      "Tests have no fault injection; the error paths are hardly run.",
      ["src/ft_file.c", "src/ft_traverse.c", "src/ft_process.c", "src/ft_report.c", "src/ft_report_json.c", "src/napr_threadpool.c", "src/ftwin.c"],
      [("fallback from mapping to reading", "src/ft_file.c small_filecmp, checksum_small_file"), ("skipping", "src/ft_traverse.c process_directory"), ("failed hashes", "src/ft_process.c collect_hashing_results"), ("failed comparisons", "src/ft_report.c compare_and_report_pair")],
      level="fault_enumeration", technique="fault injection into file system calls and thread creation, with soundness and completeness oracles", note="Faults are injected at the libc boundary of the linked binary, per file or per call number.", observe=[CLI]),
    P("C13", "An unprivileged user gets exactly the duplicates among readable files",
      "Run by a user who is not root, ftwin reports exactly the groups among the files this user can reach and read according to the owner, group (supplementary groups included) and other permission bits of files and directories; "
      "unreadable files and directories are skipped without stopping the scan of the rest.",
      ["inputs", "configurations"], "all assignments of owners, groups and modes, and all group memberships",
      "Tests cover one unreadable file as root or with one user.",
      ["src/ft_traverse.c", "src/ft_config.c"],
      [("permission test", "src/ft_traverse.c check_permissions"), ("group list", "src/ft_config.c fill_gids_ht")],
      technique="property-based testing as an unprivileged user against a model of permission bits", note="The process drops to the nobody user with random supplementary groups; needs the right to change user ids.", observe=[CLI]),
    P("C14", "The heap always gives back its extremum and loses nothing",
      "Whatever the sequence of insertions and extractions, extraction returns an element that no remaining one precedes in the given order, the heap contains exactly what was inserted and not extracted, its size and indexed access agree with that, "
      "and an empty heap yields nothing; with the locking variants this also holds when several threads use it at once.",
      ["histories", "schedules"], "all histories over elements with equal keys and any order function, and concurrent use of the locking operations",
      "Tests insert a few hundred numbers once.",
      ["src/napr_heap.c"],
      [("sift up and down", "src/napr_heap.c napr_heap_insert, napr_heap_extract"), ("growth", "src/napr_heap.c napr_heap_insert")],
      technique="model-based property testing against a multiset, under sanitizers", note="Concurrent cases run under ThreadSanitizer.", observe=["heap operations' results"]),
    P("C15", "The hash table finds exactly what was stored",
      "Whatever the sequence of searches, insertions and removals, a search finds an entry exactly when it was inserted and not removed, an iteration visits every present entry exactly once (also when the entry just visited is removed), and growing "
      "the table changes nothing of this.",
      ["histories"], "all histories over string and binary keys, sizes and hash functions, constant ones included",
      "Tests insert fixed words.",
      ["src/napr_hash.c", "src/key_hash.c"],
      [("search, set, remove", "src/napr_hash.c napr_hash_search, napr_hash_set, napr_hash_remove"), ("growth", "src/napr_hash.c napr_hash_rebuild"), ("iteration", "src/napr_hash.c napr_hash_first, napr_hash_next")],
      technique="model-based property testing against a dictionary, under sanitizers", observe=["hash operations' results"]),
    P("C16", "The thread pool runs every task exactly once and waiting really waits",
      "Every task queued in a thread pool is run exactly once, by any schedule of the workers; waiting returns only when all tasks queued before it have finished, and always returns; the pool can be used for further rounds and shutting it down "
      "ends all workers.",
      ["schedules", "histories"], "all schedules, numbers of workers and tasks, tasks that queue tasks, several queueing threads and spurious wakeups",
      "Tests run one round on an idle machine; the failing schedules are rare.",
      ["src/napr_threadpool.c"],
      [("queue and wakeups", "src/napr_threadpool.c napr_threadpool_add, wait_for_task"), ("end of work", "src/napr_threadpool.c napr_threadpool_wait"), ("shutdown", "src/napr_threadpool.c napr_threadpool_shutdown")],
      technique="randomized schedule testing with perturbed lock operations and injected spurious wakeups, half under ThreadSanitizer", note="Schedules are sampled, not enumerated.", observe=["task counters after every wait"]),
    P("C17", "The database behaves as an ordered map under transactions",
      "For any history of puts, gets, deletes (plain, or only if the value matches), commits, aborts and reopenings, every read returns the value last written by the same transaction or by the last committed one, entries are unaffected by operations on other keys "
      "whatever the sizes and order of keys, oversized entries are refused without effect, and committed data is there after closing and opening again.",
      ["histories", "inputs"], "all histories, keys of up to 1000 bytes and values that fit a page with their key; larger ones may be refused, without effect",
      "Tests insert short keys in simple orders; splits with mixed sizes and updates across commits are not reached.",
      ["src/napr_db.c", "src/napr_db_tree.c"],
      [("insertion and splits", "src/napr_db_tree.c db_tree_insert, db_split_leaf, db_split_branch"), ("copy on write", "src/napr_db_tree.c db_page_get_writable"), ("commit", "src/napr_db.c napr_db_txn_commit")],
      technique="stateful model-based testing against a dictionary, under sanitizers", note="Histories of up to 6000 operations.", observe=["results of the database functions, full scans"]),
    P("C18", "Cursors visit every entry once, in order, and seek exactly",
      "In any transaction a cursor moving forward or backward visits each entry exactly once in byte order of the keys with its current value, first, last, exact and range seeks land on the right entry or say there is none, and mixing moves and seeks in "
      "any order gives the answers of a sorted list.",
      ["histories", "inputs"], "all tree shapes made by insertions, deletions and commits, and all sequences of cursor moves",
      "Tests walk small trees in one direction.",
      ["src/napr_db_cursor.c", "src/napr_db_tree.c"],
      [("moves", "src/napr_db_cursor.c db_cursor_next, db_cursor_prev"), ("seeks", "src/napr_db_cursor.c db_cursor_seek")],
      technique="stateful model-based testing against a sorted list, under sanitizers", note="Emptied leaves, multi-level trees, absent keys and extremes are part of the histories.", observe=["cursor results"]),
    P("C19", "A read transaction keeps seeing the snapshot it started with",
      "A read transaction sees exactly the state of the last commit before it began until it ends, in all reads and cursor walks, whatever other transactions write, delete, commit, abort and reuse meanwhile, from any thread and with several readers of different ages.",
      ["histories", "schedules"], "all interleavings of up to dozens of readers with one writer",
      "Tests hold one reader over one commit.",
      ["src/napr_db.c", "src/napr_db_tree.c"],
      [("reader registration", "src/napr_db.c napr_db_txn_begin, db_get_oldest_reader_txnid"), ("page reuse", "src/napr_db.c db_reclaim_page_from_free_db"), ("copy on write", "src/napr_db_tree.c db_page_get_writable")],
      technique="stateful model-based testing with overlapping readers, plus threaded runs", note="One process.", observe=["reads and cursor walks of open readers"]),
    P("C20", "After a crash at any point the database is one whole commit",
      "If the machine stops at any moment of a history of commits, whatever part of the data not yet forced to disk has been written, in any order, opening the database gives exactly the state of a whole commit: the one before or the one in progress, and "
      "never less than the last one whose commit call had returned; the database can then be used as usual.",
      ["crash_points", "histories"], "all crash points of a history and subsets, at sector granularity, of unsynced writes",
      "Tests reopen cleanly closed files.",
      ["src/napr_db.c"],
      [("order of writes and syncs", "src/napr_db.c napr_db_txn_commit"), ("choice of the header page", "src/napr_db.c check_live_meta")],
      level="fault_enumeration", technique="recorded I/O and generated crash images, reopened and compared with the commit history", note="Crashes while the database is being created are not claimed.", observe=["contents after reopening the crash image"]),
    P("C21", "Rewriting the same data does not grow the database without bound",
      "A database in which the same keys are overwritten again and again, in any number of transactions, aborts and reopenings, stops growing once it has been through a warm-up, because the pages given up by old commits that no reader can see are used again; "
      "the contents stay right all the while.",
      ["histories"], "all long overwriting workloads, with readers that come and go",
      "Tests are too short to see growth.",
      ["src/napr_db.c", "src/napr_db_tree.c"],
      [("free pages", "src/napr_db.c db_reclaim_page_from_free_db"), ("oldest reader", "src/napr_db.c db_get_oldest_reader_txnid"), ("allocation", "src/napr_db_tree.c db_page_alloc")],
      technique="stateful testing of long workloads with a growth bound and a dictionary", note="The bound is generous: it tells reuse from no reuse.", observe=["file size, contents"]),
    P("C22", "Aborts, full maps and failed commits leave no trace",
      "A transaction that is aborted, or whose commit fails because a write, a sync or an extension of the file fails, and an operation that is refused (entry too large, memory map full), leave exactly the state before it for open readers, for "
      "later transactions and after reopening, and the database stays usable.",
      ["fault_sequences", "histories"], "all histories and all placements of failing writes, syncs and extensions",
      "Tests do not inject I/O faults.",
      ["src/napr_db.c", "src/napr_db_tree.c"],
      [("abort", "src/napr_db.c napr_db_txn_abort"), ("failed commit", "src/napr_db.c napr_db_txn_commit"), ("map limit", "src/napr_db_tree.c db_page_alloc")],
      level="fault_enumeration", technique="stateful testing with injected I/O faults against a dictionary", note="Faults are injected at the libc boundary.", observe=["results of the database functions, contents afterwards"]),
    P("C23", "Opening a damaged or foreign file fails cleanly",
      "Opening a file that is truncated, not a database, too large for the memory map, missing or otherwise damaged in its header pages gives an error or a database with the contents of a commit that happened; it never crashes, and an unsuccessful or "
      "read-only opening does not create or change the file.",
      ["inputs", "configurations"], "all truncations, foreign contents, header damages and map sizes",
      "Tests open valid files and one with a bad magic number.",
      ["src/napr_db.c"],
      [("header validation", "src/napr_db.c check_live_meta, napr_db_env_open")],
      technique="mutation-based fuzzing of database files with an oracle over the commit history, under sanitizers", note="Damage inside data pages is not claimed.", observe=["status of opening, contents, file bytes"]),
    P("C24", "The file cache returns exactly what was last stored",
      "For any history of stores, lookups, commits, aborts, restarts and deaths of the process, a lookup by path returns exactly the fields last stored for that path in the same transaction or committed, and says there is none for paths that "
      "were never stored; other paths are not affected. A commit that cannot be written fails with an error, stores nothing, and leaves the cache usable.",
      ["histories", "inputs", "crash_points"], "all histories over path names of up to 1000 bytes, similar ones included",
      "Tests store a few paths.",
      ["src/napr_cache.c", "src/napr_db.c"],
      [("store and lookup", "src/napr_cache.c napr_cache_upsert_in_txn, napr_cache_lookup_in_txn")],
      technique="stateful model-based testing against a dictionary, with process restarts and kills", note="Death of the process, not of the machine (see C20 for that).", observe=["results of the cache functions"]),
    P("C25", "A sweep removes exactly the entries that were not marked",
      "After any set of paths has been marked as visited (by any threads, in any order, repeatedly, known or unknown paths) a successful sweep leaves exactly the marked entries, unchanged, removes all others, and the result persists; a sweep that fails "
      "removes nothing.",
      ["histories", "schedules", "fault_sequences"], "all marked subsets, thread schedules and repeated sweeps",
      "Tests mark two or three entries.",
      ["src/napr_cache.c"],
      [("marks", "src/napr_cache.c napr_cache_mark_visited"), ("sweep", "src/napr_cache.c napr_cache_sweep")],
      technique="stateful model-based testing against a dictionary, with threads and injected I/O faults", note="Thread schedules are sampled.", observe=["entries after the sweep"]),
    P("C26", "At most one process has the cache open, and it is never locked for good",
      "While one process has a cache open, opening it in another fails at once with an error and without touching the data; as soon as the process closes it or dies, however it dies, it can be opened again with all committed entries. An opening that fails holds nothing.",
      ["histories", "schedules"], "all sequences of opening, closing, writing and dying over several processes",
      "Tests try one second opening in the same process.",
      ["src/napr_cache.c"],
      [("lock file", "src/napr_cache.c napr_cache_open, napr_cache_close")],
      technique="stateful testing with several real processes and kills", note="Local file system locks.", observe=["status of opening in each process, entries"]),
    P("C27", "Image mode reports exactly the pairs closer than the threshold",
      "In image mode, the pairs made of the first path of a group and each of its other paths are exactly the pairs of readable GIF, PNG and JPEG images (by extension, in either case) whose similarity distance is below the chosen threshold level, each "
      "pair once; unreadable images and other files are left out and do not disturb the rest.",
      ["inputs", "configurations"], "all collections of images, levels and separators",
      "Tests compare a few fixed images at the default level.",
      ["src/ft_image.c", "src/ft_config.c"],
      [("signatures", "src/ft_image.c compute_vector"), ("comparison", "src/ft_image.c compare_image_vectors"), ("levels", "src/ft_config.c handle_image_options")],
      technique="property-based testing on generated images against distances computed with libpuzzle", note="libpuzzle itself is trusted; levels 1 to 5 are 0.2, 0.3, 0.5, 0.6 and 0.7.", observe=["standard output of ftwin -I"]),
    P("C28", "A file extracted from an archive is exact, and failures leave nothing behind",
      "Extracting a member of an archive (tar, plain, compressed or sparse, or zip) gives a file with exactly the member's contents; if the member is not there, or the archive is cut short, missing or not an archive, or writing the file fails, nothing or "
      "the exact contents is given, and neither temporary files nor open files are left behind.",
      ["inputs", "fault_sequences"], "all archives in the supported formats, all members, all cuts, and failing or short writes",
      "Tests extract one file from one archive.",
      ["src/ft_archive.c"],
      [("extraction", "src/ft_archive.c ft_archive_untar_file, copy_data")],
      technique="property-based testing on archives made by Python's tarfile and zipfile and by tar, with cuts and injected write faults, under sanitizers", note="Regular members with ASCII names; libarchive is trusted. The command itself does not yet look into archives, so the extraction function is driven directly.", observe=["the extracted file, /tmp, open descriptors"]),
    P("C29", "Write transactions run one at a time and none is lost",
      "With write transactions started from any number of threads, each runs as if it were alone: it sees everything committed before it began, no two are active at the same time, no committed update is lost, and every thread that wants to write "
      "eventually can.",
      ["schedules", "histories"], "all schedules of several writer threads with commits and aborts",
      "Tests have one writer at a time.",
      ["src/napr_db.c"],
      [("writer lock", "src/napr_db.c napr_db_txn_begin, db_writer_lock")],
      technique="randomized concurrency testing with a counter invariant and whole batches", note="Schedules are sampled; one process.", observe=["counter and batches after the run"]),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for t in T:
            a = {"files": t["files"], "mechanism": [{"name": n, "where": w} for n, w in t["mech"]], "observe_at": t["observe"], "hook_needed": None}
            fh.write(json.dumps({"id": t["id"], "title": t["title"], "statement": t["statement"], "quantifier": {"over": t["over"], "text": t["text"]},
                                 "why_tests_cant": t["why"], "anchors": a}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "./setup", "checks": [
        {"property": t["id"], "quick_cmd": "./check %s quick" % t["id"], "thorough_cmd": "./check %s thorough" % t["id"], "technique": t["technique"],
         "level": t["level"], "level_note": t["note"]} for t in T], "not_applicable": [],
        "notes": "No hooks in /repo: harnesses link /repo's sources and use the public headers, wrapping libc or APR calls at link time. properties.jsonl and this file are written by tools/meta.py."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1, ensure_ascii=False)
        fh.write("\n")


if __name__ == "__main__":
    main()
