"""What each check covers (its bounds) and what lies outside them; both go into the evidence."""
COMMON_OUT = ("Sizes beyond those of the jobs listed; bytes not made symbolic keep the fixed values of the harness; threads are preempted at mutex, condition variable, thread and file-read operations (races between these points are what C26 decides). "
              "The file system, standard streams and the C/C++ runtime are the models in rt/ (sampled paths are replayed on the real ones).")
T = {}
def X(id, bounds, outside): T[id] = (bounds, outside)
X("C01", "array_compare with three_way, three_way_int and equal, and <, <=>, == of records: arrays of the widths listed in the jobs (1..80, 1008, 1016, 1020 bytes). For every position one byte of either side is symbolic behind equal bytes, the rest is arbitrary. Builds: SSE, the gcc source paths, AVX2, AVX-512.",
  "Widths not listed; big-endian machines; gcc's own code generation (the IR is clang's; -DHSX_GCCPATH selects the source path gcc would take).")
X("C02", "Three record types. Hash bytes: four symbolic bytes at a time, windows covering every byte. Counts: every value of windows of 1000 around each change of digit count, and at both ends of the 32-bit range.",
  "Counts between the windows (same number of digits as a covered one); combinations of symbolic hash and symbolic count.")
X("C03", "Hash characters: eight symbolic hex digits (either case) at a time, windows covering every digit; counts of 1..4 symbolic digits behind the prefixes listed (up to 2147483647), followed by nothing, CR, blanks or further columns; lines without a count; lines of every length below the full one in storage of exactly that size; every byte value at every hash position.",
  "Counts beyond 32 bits; more than one non-hex character at a time.")
X("C04", "Every sequence of 2..3 (thorough 4) iterator operations out of increment, decrement, jump, copy, dereference, reverse and comparison, over 3..4 (5) records, buffers of 1..10 records; sequential, reverse and two-reader sweeps of 1..8 records; positions outside the file after any access. One byte of every record symbolic.",
  "Longer histories; databases over 2^63 bytes.")
X("C05", "Every file length modulo the record size, a missing and an unreadable file; a read error or a short read at each read of every two-access history over 3 (4) records, buffers of 1..4 records, then the same accesses without the fault.",
  "Several faults in one history; files that shrink while they are read (same as a short read).")
X("C06", "Every sequence of up to 5 (8) writes of wholly symbolic records, with any choice of no flush, flush, flush of the stream after each, buffers of 1..5 records, file and memory streams; up to 5600 records through default and large buffers (beyond 64 KiB) with the records at buffer boundaries symbolic.",
  "Failing output (C17).")
X("C07", "hibp-search run as a program (CLI11 included) on databases of 1..6 records, one hash byte per record and one or two of the needle symbolic, every order relation; padded databases of up to 701 records that cross the read buffers; plain passwords of 1..2 symbolic characters; with a table of contents; three record types.",
  "SHA-1 itself (its library is not in the tree; a stand-in digest is used), UTF-8 beyond C11, several needles per run (the program takes one).")
X("C08", "Databases of 1..6 records (up to 8 prefixes), chapters and low bytes symbolic, needle symbolic in every relation to them; 2, 3, 8 and 15..25 index bits, built fresh, rebuilt, reloaded, with gaps in the prefixes (refusal expected) and without.",
  "Databases of more than 8 prefixes; 32-bit overflow of the table entries.")
X("C09", "Killed at every byte written and every directory operation while the table is written, a disk that fills up after every number of bytes, a file cut or extended to every length, a failing or short read at every read, a symbolic table of the right size that is older than, or as old as, the database; then searches with symbolic needles.",
  "A damaged file that is newer than its database and has exactly the right size (indistinguishable from a good one); torn sectors; reordering of writes by the operating system.")
X("C10", "is_valid_hash on every length 0..43 and every byte value at two positions (or all positions for the full length); hibp-search --hash with lengths around the full one and all byte values at the positions listed.",
  "The server's use of the same function is in C25.")
X("C11", "ntlm(): passwords of the lengths listed (0..257 characters, each length class around 64-byte blocks), with one symbolic character of one to four UTF-8 bytes; UTF-16 conversion of 0..2 (3) wholly symbolic characters; MD4 itself over lengths around block boundaries up to 513 (700) bytes, one symbolic byte, fed in up to three pieces cut at every multiple of the step. Oracle: RFC 1320 written out again.",
  "Invalid UTF-8; messages over 2^29 bytes; more than one symbolic byte per digest.")
X("C12", "hibp-topn run as a program on databases of 3..5 records with wholly symbolic 32-bit counts (every tie pattern), N of 1..4; symbolic hash bytes with duplicates and any order; file and standard output; N at or above the number of records.",
  "More than 5 records; the order of equal records with equal hash and count (indistinguishable).")
X("C13", "disksort with memory limits of 1 record up to all, 0..5 (7) records, one symbolic hash byte and, for sorting by count, one symbolic count byte each (every order and tie pattern, including wholly equal records), left-over chunk and result files in the way; hibp-sort run as a program, --max-memory included; up to 2000 padding records through the default buffers.",
  "More than 7 symbolic records; chunks beyond 2000 records.")
X("C14", "hibp-convert run as a program in both directions: 1..2 symbolic records between up to 2000 padding ones, windows of hash characters, counts of 1..4 symbolic digits or at the ends of the 32-bit range, LF and CRLF, with and without final newline, files and standard streams, --limit below, at and above the number of records.",
  "The 64-bit truncated type in text-to-binary direction is converted by the downloader only (C24); malformed lines (C03).")
X("C15", "hibp-diff run as a program on databases of up to 4 old and 6 new records with one symbolic hash byte each (every interleaving), counts that differ or agree symbolically; wide jobs with wholly symbolic 32-bit old counts; up to 5460 padding records across buffer boundaries.",
  "More records; databases that are not sorted.")
X("C16", "hibp-dupes run as a program on databases of 2..4 sorted records, one or two symbolic bytes each, bit widths 32..64 listed in the jobs, first record all ones or zeroes, up to 3276 padding records.",
  "Bit widths not listed; more than 4 symbolic records.")
X("C17", "hibp-topn, -convert, -sort, -diff, -dupes run as programs: output that accepts only the first k bytes for every k (all k for small outputs, multiples of the step for outputs larger than every buffer), a read error at every read, errors of standard output, a write fault that goes away again (at every step), an input that cannot be opened.",
  "Errors only reported by close(2) or a later power failure; hibp-download (C23).")
X("C18", "hibp-topn, -convert and -download run as programs with and without --force on an existing output of 0..300 symbolic bytes (shorter, equal and longer than the new one), file types and modes.",
  "An existing output that is not a regular file; races with another process creating the file.")
X("C19", "hibp-download run as a program against stand-ins for libcurl and libevent: 2..5 (17) prefixes, any completion order and grouping of the running transfers, 1..5 parallel transfers, symbolic characters in the lines, empty and uneven responses, responses in pieces, binary, text and all types; every schedule of the two threads with at most 2 (3) preemptions.",
  "More preemptions; TLS, HTTP/2 and the real event loop; null from curl_easy_init.")
X("C20", "1..3 prefixes, up to five failures per prefix (transport error or a symbolic response code), each after any part of the response (symbolic partial data), every completion order with at most 1 preemption; the sixth failure ends the download.",
  "Codes of HTTP redirects followed by libcurl itself.")
X("C21", "--resume on a file cut at every byte (or every cut at the stated step for longer ones) out of a download of 2..4 prefixes, all three binary types, prefixes at 0, 4094, 703709 and the last ones; neighbouring hashes that first differ at any of several positions; after a kill at every point of a real earlier run; with failures during the resume followed by another resume.",
  "Two different hashes with the same 64-bit prefix within one response (sha1t64); responses that change between the runs; text output (the program refuses to resume it).")
X("C22", "--limit of 0..5 (35, 400) and --parallel-max of 0..300, every completion order for the small ones, all URLs and the number of transfers in flight recorded by the libcurl stand-in; starts other than 0 through --resume.",
  "Limits above the number of prefixes end in an error by design; limits between those listed.")
X("C23", "A transfer that fails for good, a malformed line (symbolic non-hex character at several positions), an output that accepts only a number of bytes, and pairs of these, under every completion order and every schedule with up to 2 preemptions. Deadlocks and endless loops are reported by the executor.",
  "More preemptions; spurious failure of thread creation.")
X("C24", "Responses with LF and CRLF, with and without final newline, blank lines, symbolic characters at positions across the hash, digits of counts symbolic (0 included), received in one or several pieces cut anywhere; text and binary forms of three types; 300 lines per response.",
  "Counts in responses beyond 32 bits.")
X("C25", "hibp-server run as a program with a stand-in for restinio: every subset of databases, 0..4 records each with symbolic hash bytes (the other bytes distinct, all zero or all ones), symbolic request hashes and lengths, plain passwords, all formats, unknown paths, sequences of up to 3 requests (state carried between them), JSON and plain replies, tables of contents of 15..20 bits, 1..3 threads with at most 1 preemption at synchronisation points and file reads.",
  "HTTP parsing and URL decoding (restinio); the SHA-1 library (stand-in digest); --perf-test.")

X("C26", "Every schedule of the threads of hibp-download (with at most 1 preemption, 2 in small jobs) over downloads of 1..3 prefixes with --debug, --progress and neither, retries, a transfer that fails for good, a malformed line, a full disk, --resume; of hibp-server with 2 threads and two requests. On every access of a path: is it ordered after each earlier access to the same byte by another thread (vector clocks over mutexes, condition variables, atomics by their memory order, thread creation and joining, one-time initialisation)?",
  "Accesses inside the standard library's compiled parts (streams, locales) and through symbolic addresses; more than five threads; orderings only a weak memory model shows.")
