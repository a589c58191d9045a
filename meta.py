#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description of the properties."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props
L = []
def A(id, title, st, over, text, why, files, mech, obs, note=""):
    L.append(dict(id=id, title=title, statement=st, over=over.split(), text=text, why=why, files=files.split(), mech=mech, obs=obs, note=note))

A("C01", "Hash comparison is the unsigned byte-lexicographic total order",
  "For every two hashes of the same width, comparing them orders them exactly as comparing their bytes as unsigned numbers from the first byte to the last, for equality, ordering and three-way comparison alike, and comparing two records ignores their counts. This holds at every width and in every code path (scalar, word-wise, vector) the build may select.",
  "inputs configurations", "all byte values at every position (one or more symbolic bytes per position, the rest equal or arbitrary), widths 1..1020, every instruction-set variant",
  "The tests compare a handful of constant arrays; a wrong lane or a signed comparison shows only for particular byte values at particular positions.",
  "include/arrcmp.hpp include/hibp.hpp", ["array_compare in include/arrcmp.hpp", "pawned_pw::operator<=>, operator== in include/hibp.hpp"], ["return value of array_compare and of <, <=>, == on records"])
A("C02", "A record printed as text and read back is the same record",
  "Every record (any hash bytes, any 32-bit count) is printed as its hash in upper-case hex, a colon and the decimal count, and reading that text back yields the same hash bytes and the same count.",
  "inputs", "all values of the symbolic hash bytes (4 at a time, every position), counts in windows of 1000 around every change of digit count, both signs, 3 record types",
  "Tests print and parse a few fixed records; nibble order, sign and digit-count boundaries need all values.",
  "include/hibp.hpp", ["pawned_pw::to_string, operator<<, text constructor in include/hibp.hpp"], ["text returned by to_string and operator<<", "hash and count of the re-read record"])
A("C03", "Text lines are read exactly, malformed ones are refused",
  "A line that starts with a complete hex hash (either letter case) and may go on with a colon and a decimal count yields exactly those hash bytes and that count, and a full 40-digit hash given to the truncated 64-bit type uses its first 16 digits and still finds the count. A line without a complete hex hash is refused with an exception, and no text makes the reader read outside it.",
  "inputs", "all characters at 4..8 symbolic positions of the hash, all counts of up to 4 symbolic digits behind several prefixes, truncated lines of every length, all bytes at the hash/separator boundary",
  "Tests use well-formed lines; malformed and truncated lines, and every character class, are never tried.",
  "include/hibp.hpp", ["pawned_pw text constructor, detail::make_byte/make_nibble in include/hibp.hpp"], ["hash and count of the record", "exception"])
A("C04", "Every way of reaching record i of a database yields record i",
  "Whatever the buffer size and whatever was read before, reading position i of a database file, through an iterator moved there by any sequence of increments, decrements, jumps and copies, or through a reverse iterator or a sequential scan, yields exactly the i-th record of the file, iterator differences and comparisons agree with positions, and reading a position outside the file fails instead of yielding data.",
  "inputs histories configurations", "every sequence of 2..4 iterator operations over databases of 3..8 records, buffers of 1..10 records, symbolic record contents, 3 record types",
  "Tests walk a few fixed sequences with a few buffer sizes; buffer-boundary mistakes depend on the exact history of earlier reads.",
  "include/flat_file.hpp", ["database::get_record and database::const_iterator in include/flat_file.hpp"], ["values returned by *it, it->, back()", "exception on out of range access"])
A("C05", "Broken database files and failing reads are reported, never turned into data",
  "Opening a database file that is missing, unreadable or not a whole number of records fails with an exception. If a later read fails or returns less than it should, that access throws and no stale, zero or neighbouring record is ever returned for it, and after the fault has gone later accesses yield the right records.",
  "inputs fault_sequences", "every file size modulo the record size, a read error or short read at every read of every 2-access history, 3 record types and several buffer sizes",
  "Tests never make a read fail and try one wrong size.",
  "include/flat_file.hpp", ["database constructor and get_record in include/flat_file.hpp"], ["exceptions", "values of later reads"])
A("C06", "The record writer produces exactly the records written, in order",
  "After any sequence of writes and flushes through a record writer of any buffer size, and its destruction, the output holds exactly the records written, each once, in order and byte for byte, with nothing else.",
  "inputs histories configurations", "every sequence of writes and flushes up to the bound, buffer sizes 1..5 and the default of 1000 crossed, symbolic record contents, 3 record types",
  "Tests write a few records with the default buffer; loss or duplication appears only when a write meets a buffer boundary or a flush.",
  "include/flat_file.hpp", ["stream_writer and file_writer in include/flat_file.hpp"], ["bytes of the output file"])
A("C07", "Searching finds a password exactly when its hash is in the database",
  "For every sorted database and every password or hash given, hibp-search prints the record with that hash, with its count, when the database holds it, and `not found` otherwise: never a neighbour, never a miss for the first or last record. This holds for all three record types.",
  "inputs configurations", "databases of 1..6 records with symbolic hash bytes (every order relation between needle and records), symbolic counts, all three types, hash given on the command line",
  "The application is not built by the test suite; tests search a fixed database for a few needles.",
  "app/hibp_search.cpp include/flat_file.hpp include/hibp.hpp", ["run_search in app/hibp_search.cpp", "std::lower_bound over database::const_iterator"], ["standard output and exit code of hibp-search"])
A("C08", "The table of contents changes no answer",
  "For every sorted database for which a table of contents can be built, with any number of index bits, a search through it gives the same answer as a search without it, for needles below, between, on and beyond the records, and building it twice or loading it back from its file makes no difference. A database for which it cannot be built is refused with an error.",
  "inputs configurations histories", "databases of 1..6 records with symbolic hash bytes spread over the low prefixes, symbolic needles, 15..25 bits, built fresh, rebuilt and reloaded",
  "One test builds the table for a fixed database; prefix boundaries, first/last chapter and partial databases depend on exact values.",
  "src/toc.cpp include/toc.hpp app/hibp_search.cpp", ["details::build, details::search, details::load in src/toc.cpp"], ["result of toc_search", "exception from toc_build"])
A("C09", "A stale or half-written table of contents never gives wrong answers",
  "Whatever happened to an earlier run while it was writing the table of contents file (killed or out of space at any point), and whatever the age of that file, the next search through a table of contents gives the right answers or fails with an error. A table older than its database is rebuilt.",
  "crash_points fault_sequences histories", "a crash at every byte of the write and at every metadata operation, a full disk after every number of bytes, a truncated or extended file of every length, older/equal/newer time stamps",
  "Tests never interrupt a build nor reuse a damaged file.",
  "src/toc.cpp", ["toc_build, details::save, details::load in src/toc.cpp"], ["answers of toc_search in the next run, or an error"])
A("C10", "Only a complete upper-case hex hash is accepted as a hash",
  "Where a hash is asked for (hash validation, `hibp-search --hash`), text is accepted exactly when it has the full number of digits of the record type and consists of 0-9 and A-F only; anything else is refused with an error and searched for nowhere.",
  "inputs", "every character at symbolic positions, every length from 0 to beyond the full one, 3 record types",
  "Tests try a few valid hashes.",
  "include/hibp.hpp app/hibp_search.cpp src/srv/server.cpp", ["is_valid_hash in include/hibp.hpp"], ["return value; exit code and message of hibp-search"])
A("C11", "The NTLM hash is MD4 over the UTF-16LE form of the password",
  "For every password in valid UTF-8 the NTLM hash equals MD4 of its UTF-16 little-endian encoding, for every message length, including those that meet the 64-byte block and padding boundaries. Feeding the digest in pieces gives the same result as feeding it at once.",
  "inputs", "passwords of 0..70 characters with symbolic characters, compared with an independent MD4 specification; every split of the input into pieces",
  "Tests compare two or three known hashes of short passwords; block and padding boundaries are not met.",
  "src/ntlm.cpp src/md4.c", ["ntlm, utf8_to_utf16_le in src/ntlm.cpp", "MD4_Init/Update/Final in src/md4.c"], ["returned 16 bytes"])
A("C12", "hibp-topn keeps exactly the N most common records, in hash order",
  "For every database and every N smaller than its size, the output holds exactly the N records with the largest counts (the smaller hash winning a tie), with their counts, sorted by hash. Asking for at least as many records as there are is refused.",
  "inputs configurations", "databases of 3..5 records with fully symbolic 32-bit counts and symbolic hash bytes, N from 1 to the size, 3 record types",
  "Tests select from one fixed database.",
  "app/hibp_topn.cpp", ["build_topn in app/hibp_topn.cpp"], ["output file and exit code of hibp-topn"])
A("C13", "Sorting yields exactly the input records in the requested order",
  "hibp-sort leaves in the .sorted file exactly the records of its input, each as often as before and byte for byte, ordered by hash or, on request, by descending count and then hash, for every input (duplicates, already sorted, reversed, empty) and every memory limit, whether or not the data is split into chunks. The input is not modified and no temporary chunk is left behind.",
  "inputs configurations", "databases of 0..6 records with symbolic hash and count bytes, memory limits giving one chunk up to one record per chunk, 3 record types, both orders",
  "Tests sort fixed data in one or few chunk layouts.",
  "include/flat_file.hpp app/hibp_sort.cpp", ["sort_into_chunks, merge_sorted_chunks, disksort_range in include/flat_file.hpp"], ["contents of the .sorted file", "directory contents", "exit code"])
A("C14", "Converting between text and binary loses and invents nothing",
  "Text to binary to text gives the same lines, binary to text to binary gives the same bytes, for every hash and count, with or without a final newline or carriage returns, through files or standard streams. --limit N converts exactly the first N records (all, if there are fewer).",
  "inputs configurations", "symbolic hash digits, counts and record bytes; sizes around the 1000-record writer and 4096-byte reader buffers; every limit relation; both hash types",
  "Tests convert one fixed file; buffer boundaries, limits and extreme counts are not met.",
  "app/hibp_convert.cpp include/hibp.hpp include/flat_file.hpp", ["txt_to_bin, bin_to_txt in app/hibp_convert.cpp"], ["output file or standard output, exit code"])
A("C15", "hibp-diff accounts for every difference, or fails",
  "Comparing an old database with a new one reports every record that is new and every one whose count changed, each once with the right value, and nothing that is unchanged; applying the report to the old database gives the new one. If an old record is missing from the new database the program says so and fails.",
  "inputs", "old databases of 0..4 and new ones of 0..6 records with symbolic hash bytes and counts (every interleaving of equal, inserted, changed and lost records), sizes around the reader's buffer, 2 record types",
  "Tests compare two fixed pairs of databases.",
  "app/hibp_diff.cpp src/diffutils.cpp", ["run_diff in src/diffutils.cpp"], ["standard output and exit code of hibp-diff"])
A("C16", "hibp-dupes reports exactly the records whose truncated hashes collide",
  "For every sorted database and bit width, hibp-dupes reports exactly the records that agree with their predecessor in the leading bits, in order, and reports nothing for a database without such neighbours; the number it prints is the number of records it found.",
  "inputs configurations", "databases of 2..4 records with symbolic hash bytes around every tested bit width (32..64), both hash types, sizes around the reader's buffer, sorting on and off",
  "Tests run it on one fixed file.",
  "app/hibp_dupes.cpp", ["check_duplicates in app/hibp_dupes.cpp"], ["standard output and exit code of hibp-dupes"])
A("C17", "A failed write is never reported as success",
  "If the output of a tool cannot be written completely (the disk fills up after any number of bytes, including while the last buffered bytes are flushed at the end), or its input cannot be read completely, the tool ends with a non-zero exit code and an error message; it is neither killed by an unhandled exception nor silently leaves a truncated output behind a zero exit code.",
  "fault_sequences inputs", "a full disk after every number of bytes for outputs below and above the stream and record buffers, and a read error at every read, for topn, convert, sort, diff, dupes and download",
  "Tests never make a write fail.",
  "include/flat_file.hpp app/hibp_convert.cpp app/hibp_topn.cpp app/hibp_sort.cpp app/hibp_download.cpp include/dnl/queuemgt.hpp", ["stream_writer::flush and destructors in include/flat_file.hpp", "main of each application"], ["exit code against output size"])
A("C18", "An existing output file is never overwritten without --force",
  "When the output file named on the command line exists and neither --force nor (for the downloader) --resume is given, hibp-topn, hibp-convert and hibp-download fail and leave that file byte for byte as it was. With --force it is replaced completely.",
  "inputs configurations", "every combination of the flags, existing contents shorter, longer and equal to the new output, symbolic contents",
  "Tests always write to fresh file names.",
  "app/hibp_topn.cpp app/hibp_convert.cpp app/hibp_download.cpp", ["get_output_stream in app/hibp_topn.cpp and app/hibp_convert.cpp", "check_options in app/hibp_download.cpp"], ["exit code and contents of the output file"])
A("C19", "A download writes every prefix exactly once, in order",
  "In whatever order and groups the transfers complete, and however the two threads are scheduled, a completed download holds the lines of every requested prefix exactly once, in ascending prefix order and in the order received within a prefix, each with its prefix prepended.",
  "schedules inputs", "every order and grouping of completions for up to 4 prefixes with 1..4 parallel transfers, schedules of the two threads with up to 2 preemptions, symbolic response bytes",
  "Tests need a live server and sample one schedule.",
  "src/dnl/queuemgt.cpp src/dnl/requests.cpp app/hibp_download.cpp", ["service_queue and enqueue_downloads_for_writing in src/dnl/queuemgt.cpp", "process_curl_messages in src/dnl/requests.cpp"], ["output file and exit code of hibp-download"])
A("C20", "A failed transfer is retried and leaves no trace in the output",
  "A transfer that fails (a transport error or any response code other than 200) is requested again up to five times, anything received in a failed attempt is discarded, and after a later success the output is the same as if nothing had failed. When a prefix still fails after its retries the download fails.",
  "fault_sequences schedules", "every sequence of outcomes (success, transport error, symbolic response code) per attempt for up to 2 prefixes, partial bodies before the failure",
  "Tests never make a transfer fail.",
  "src/dnl/requests.cpp", ["process_curl_done_msg in src/dnl/requests.cpp"], ["requests issued, output file and exit code of hibp-download"])
A("C21", "Resuming a download gives the file an uninterrupted one would have given",
  "For every state an interrupted download can leave behind (cut at any byte), `--resume` either completes the file to exactly what an uninterrupted download would have produced, or fails with an error and leaves the records of the completely downloaded prefixes in place, as a prefix of the correct output that a later --resume can complete. Records already there are neither lost nor repeated.",
  "crash_points inputs histories", "an output cut at every byte of a 2..4 prefix download, symbolic hashes, all three record types, and a limit below, at and above what is there",
  "Tests resume from one or two fixed files.",
  "src/dnl/resume.cpp app/hibp_download.cpp", ["get_last_prefix in src/dnl/resume.cpp", "main in app/hibp_download.cpp"], ["output file and exit code of hibp-download"])
A("C22", "The right prefixes are requested, each once, within the parallel limit",
  "Without failures every prefix from the start to just below the limit is requested exactly once and no other, at the address for that prefix and hash type with five upper-case hex digits, and no more transfers than --parallel-max run at a time. Every combination of --limit and --parallel-max ends in a complete download or an error.",
  "inputs configurations schedules", "limits 0..5, parallel-max 0..5, every completion order, all three record types, and all 2^20 prefixes for the address",
  "Tests use one limit and one parallelism.",
  "src/dnl/requests.cpp include/hibp.hpp app/hibp_download.cpp", ["fill_download_queue, add_download in src/dnl/requests.cpp", "url in include/hibp.hpp"], ["requests made to the transfer library"])
A("C23", "A failing download stops both threads, fails and keeps a correct prefix",
  "When a transfer fails for good, a received line is malformed (binary output) or the output cannot be written, the download ends (no deadlock, no crash) with a non-zero exit code under every schedule of its two threads, and what it wrote is a prefix of the correct output.",
  "schedules fault_sequences", "a permanent failure at each prefix, a malformed line in each file, a full disk; schedules of the two threads with up to 2 preemptions",
  "Tests never fail a download, and the outcome depends on the interleaving of the two threads.",
  "src/dnl/queuemgt.cpp src/dnl/requests.cpp", ["run, service_queue in src/dnl/queuemgt.cpp", "process_curl_messages, curl_and_event_cleanup in src/dnl/requests.cpp"], ["exit code and output file of hibp-download", "termination"])
A("C24", "The three output formats of the downloader agree",
  "For the same responses, the text output is every received line with its prefix, the binary output is those lines converted to records, and the truncated 64-bit output is the same records with the hash cut to eight bytes; empty lines and carriage returns leave no trace and a response without a final newline loses nothing.",
  "inputs configurations", "symbolic hash digits and count digits, line endings with and without carriage return, empty lines, missing final newline, all formats",
  "Tests compare fixed responses.",
  "src/dnl/queuemgt.cpp app/hibp_download.cpp include/hibp.hpp", ["write_lines in src/dnl/queuemgt.cpp", "launch in app/hibp_download.cpp", "text_writer in include/dnl/queuemgt.hpp"], ["output file of hibp-download"])
A("C25", "The server answers each query from the right database",
  "For every combination of databases, every format and every password or hash, the server answers with the count stored for that hash in the database of that format (for plain passwords: the first of sha1, ntlm, sha1t64 that is loaded), or -1 if it is absent, with status 400 for a malformed hash or a missing database and 404 for an unknown format or path, in plain or JSON form, with and without a table of contents, on one thread or several.",
  "inputs configurations schedules", "symbolic hash bytes, counts and hash text, every subset of the three databases, every format, both output forms; successive queries on one thread, and queries on two threads interleaved at every file read",
  "The server is not built by the test suite.",
  "src/srv/server.cpp app/hibp_server.cpp", ["get_router, handle_plain_search, handle_hash_search, search_and_respond in src/srv/server.cpp"], ["response status and body"])
A("C26", "Threads never touch shared data unsynchronised",
  "Whatever the schedule, the order in which transfers complete, the responses, failures and options (--debug, --progress, --resume, --limit), no two threads of hibp-download (main, requests, queue management) and no two worker threads of hibp-server access the same memory, one of them writing, without an ordering between them: the queues, the finished set, the thread names, the statistics, the error state and the databases are protected, so that no result, message or shutdown depends on a data race.",
  "schedules responses faults options", "every schedule within the preemption bound, every completion order, failing transfers, malformed bodies, a full disk; two server workers with requests in any interleaving",
  "A race shows up only in rare interleavings and often not even then; the tests run one download with whatever schedule the machine produces, and no thread sanitizer.",
  "src/dnl/queuemgt.cpp src/dnl/requests.cpp src/dnl/shared.cpp src/srv/server.cpp", ["run, service_queue, enqueue_downloads_for_writing in src/dnl/queuemgt.cpp", "run_event_loop, process_curl_done_msg in src/dnl/requests.cpp", "logger in include/dnl/shared.hpp", "handle_plain_search, handle_hash_search in src/srv/server.cpp"], ["memory accesses of the threads; what the tools write"])

NA = {}
def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in L:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": m.split(" in ")[0], "where": m.split(" in ")[-1]} for m in p["mech"]], "observe_at": p["obs"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in L:
        i = p["id"]
        if i in props.PROPS:
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                           "technique": "symbolic execution of the real code's LLVM IR, SMT (z3)", "level": "model_checking",
                           "level_note": props.PROPS[i].get("note") or "Holds for every value within the stated bounds (evidence: coverage.bounds); counterexamples are replayed on the native build. Trusts clang's IR, the executor (sampled paths are replayed natively and compared), z3, and the runtime model of libstdc++ I/O and the file system."})
        else:
            na.append({"property": i, "reason": NA.get(i, "check under construction")})
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
if __name__ == "__main__":
    main()
