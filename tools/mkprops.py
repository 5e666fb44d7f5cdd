#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is reviewable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=hook)))
I = ["inputs"]
B64, W64, B58 = "coda/base64.c", "coda/web64.c", "coda/base58.c"

p("C01", "Base64 encoding is standard, exact in length and inverted by decoding",
  "Encoding any byte string gives exactly the RFC 4648 text: four characters per started three-byte group, from the standard alphabet, with '=' padding only at the end. Decoding that text gives back exactly the original bytes, through both the caller-buffer and the allocating variants. When the output buffer is too small the encoder writes exactly the prefix that fits and nothing beyond it, and when it is larger the text is NUL-terminated.",
  I, "every byte string and every output capacity", "No base64 test exists; every byte value in every position modulo three and every output size is out of reach of samples.",
  [B64, "coda/base64.h"], [("encoder", B64+": coda_base64_encode"), ("decoder", B64+": coda_base64_decode"), ("allocating variants", B64+": *_alloc")],
  ["coda_base64_encode", "coda_base64_encode_alloc", "coda_base64_decode", "coda_base64_decode_alloc"])
p("C02", "Base64 decoding is strict and never reads or writes outside its buffers",
  "For any input text and any output capacity the decoder reads only the given input bytes, writes no more than the capacity it was given and reports exactly how many bytes it wrote. It reports success exactly when the text is a sequence of complete four-character groups over the alphabet with at most one correctly placed padding at the very end, and then the reported bytes are the decoded value cut at the capacity. The alphabet predicate is true for exactly the 64 alphabet characters.",
  I, "every byte string as input, every output capacity", "No base64 test exists; malformed input is the attack surface and its space is exponential.",
  [B64], [("group checks and outleft accounting", B64+": coda_base64_decode"), ("reverse alphabet table", B64+": b64")],
  ["coda_base64_decode", "coda_base64_decode_alloc", "coda_isbase64"])
p("C03", "Web-safe base64 round-trips and its decoder is strict and bounded",
  "Web-safe encoding uses only letters, digits, '-', '_' and '.' as padding, has the exact base64 length, and decoding it returns the original bytes. The decoder never touches memory outside its buffers, reports exactly the number of bytes written, and succeeds exactly on well-formed text.",
  I, "every byte string (as data and as encoded text) and every output capacity", "No web64 test exists.",
  [W64, "coda/web64.h"], [("encoder", W64+": web64_encode"), ("decoder", W64+": web64_decode"), ("reverse table", W64+": b64")],
  ["web64_encode", "web64_decode"])
p("C04", "Base58 encoding is the exact number in base 58 and decoding inverts it",
  "Encoding any byte string yields one '1' per leading zero byte followed by the minimal base-58 digits of the remaining big-endian number, in the Bitcoin alphabet. Decoding that text returns exactly the original bytes and their count. Working buffers are always large enough, whatever the length and content of the input.",
  I, "every byte string; every base58 text", "The table of test vectors samples about a dozen strings; carries and buffer sizing depend on the exact magnitude of the number.",
  [B58], [("repeated multiply-add with carry", B58+": coda_base58_encode, coda_base58_decode"), ("size estimates 138/100 and 733/1000", B58)],
  ["coda_base58_encode", "coda_base58_encode_alloc", "coda_base58_decode", "coda_base58_decode_alloc"])
p("C05", "Base58 decoding rejects invalid text at the right position, within its buffers",
  "Decoding text that contains a character outside the base-58 alphabet reports failure, never success, and the failure value identifies the position of the first invalid character. Decoding and encoding never read outside the input, never write outside the documented output size, and release what they allocate on every path. The encoder writes no more characters than the capacity it was given.",
  I, "every byte string as text, every position of the invalid character", "The tests try a handful of invalid strings, none with the invalid character first.",
  [B58], [("alphabet check before use", B58+": coda_base58_decode"), ("error value", B58+": coda_base58_decode"), ("buffer release", B58+": coda_base58_decode_alloc")],
  ["coda_base58_decode", "coda_base58_decode_alloc", "coda_isbase58", "coda_base58_encode"])
U = "coda/url.cpp"
p("C06", "Percent-encoding round-trips every byte string and all variants agree",
  "For any byte string, percent-decoding the percent-encoded form returns the original bytes, for the '+'-for-space and the no-plus encodings alike. The encoded form contains only unreserved characters, '+' and well-formed upper-case escapes, and never exceeds three times the input length. The buffer and string variants of encoder and decoder produce identical results, and decoding never reads past the input even when it ends inside an escape.",
  I, "every byte string, including embedded NULs and text ending in a partial escape", "No test covers this; classification tables are per-byte and truncated escapes sit at the end of buffers.",
  [U], [("encode bitmap", U+": table_urlenc"), ("hex tables", U+": table_urldec, table_hexval"), ("six entry points", U+": coda_urlenc*, coda_urldec*")],
  ["coda_urlenc", "coda_urlenc_noplus", "coda_urldec"])
p("C07", "In-place style URL escapers never overrun the caller's buffer",
  "For any text and any destination capacity, escaping, unescaping and pre-unescaping write only inside the given destination and leave it NUL-terminated. When the result fits, it is exactly the specified transformation of the text.",
  I, "every NUL-terminated text and every destination capacity of at least one byte", "No test exists; overflows need a particular combination of remaining space and kind of escape.",
  [U], [("remaining-space arithmetic", U+": coda_url_escape, coda_url_unescape, coda_url_preunescape")],
  ["coda_url_escape", "coda_url_unescape", "coda_url_preunescape"])
p("C08", "Query strings and header blocks parse into exactly the pairs they contain",
  "For any buffer, parsing a query string stores, for every '&'-separated field that contains '=', the text before its first '=' mapped to the text after it (the last occurrence of a key wins), and nothing else. Parsing a header block does the same for CRLF-separated lines and ':' and stops at the first empty line. Neither reads outside the buffer.",
  I, "every byte buffer and length", "No test covers it; separators may be missing, doubled, or at either end.",
  [U], [("field scan", U+": coda_get_params_buf"), ("line scan", U+": coda_get_header_buf")],
  ["coda_get_params", "coda_get_params_buf", "coda_get_header", "coda_get_header_buf"])
UP = "coda/url_parser.cpp"
p("C09", "Absolute URL normalisation is memory-safe, canonical and scheme-complete",
  "For any bytes and length, creating an absolute URL never reads outside those bytes nor writes outside its own storage, and the result depends only on those bytes. The stored URL begins with http:// or https:// in the letter case given (http:// is prepended when absent), contains no fragment, has a lower-case host without leading or trailing dots followed by a path that starts with '/', and its path before the query is the given one with '//', '/./' and '/../' segments resolved and with a trailing slash kept only under the fetchable flag or at the root; the query is unchanged. The reported domain is the last two labels of a host without empty labels.",
  I, "every byte string and flag combination", "The tests list about 60 URLs; any byte sequence can arrive from the network.",
  [UP, "coda/url_parser.hpp"], [("scheme detection", UP+": create_scheme"), ("host normalisation", UP+": assign_anchor"), ("path normalisation", UP+": assign_refers"), ("size estimate of the storage", UP+": create_absolute")],
  ["coda_url::create_absolute", "get_url", "get_domain"])
p("C10", "Relative references resolve against the parent URL, safely",
  "For any parent URL and any reference bytes, resolution never reads outside the reference or the parent nor writes outside its own storage. A reference with its own scheme is parsed as absolute (and refused under the same-domain flag if its domain differs), mailto:, javascript: and fragment-only references are refused, a reference starting with '/' replaces the path, any other replaces what follows the last '/' of the parent path, and the result is normalised like an absolute URL with the parent's scheme, host and domain.",
  I, "every parent URL, reference and flag combination", "The tests use one or two parents and a few dozen references.",
  [UP], [("reference classification", UP+": create_relative"), ("merge", UP+": create_suburl"), ("path normalisation", UP+": assign_refers")],
  ["coda_url::create_relative"])
p("C11", "URL objects are independent values and failures leave them empty",
  "Copying or assigning a URL object (to itself included) yields an equal, independent value: later destruction or reassignment of either never affects the other, and no storage is leaked or freed twice. After a failed creation the object is empty and its text and domain read as empty strings.",
  ["histories"], "every sequence of create, copy, assign, self-assign and destroy over several objects", "Tests construct each object once and never assign it to itself or reuse it after failure.",
  [UP], [("copy construction and assignment", UP+": coda_url(const coda_url&), operator="), ("failure reset", UP+": reset")],
  ["coda_url copy constructor", "coda_url::operator=", "get_url", "get_domain"])
S = "coda/string.c"
p("C12", "Bounded searches find the first (or last) occurrence and stay in bounds",
  "For every buffer, length and needle, the character and substring searches return the position of the first occurrence inside the first len bytes (the last one for the reverse variants, ASCII case ignored for the case-insensitive ones) or report absence. They read only the given len bytes of the haystack.",
  I, "every buffer content, length (zero included) and needle", "No test covers them; off-by-one reads show up only at buffer ends.",
  [S, "coda/string.h"], [("bounded scans", S+": coda_strnchr .. coda_strxchp")],
  ["coda_strnchr", "coda_strxchr", "coda_revnchr", "coda_revxchr", "coda_strnstr", "coda_strxstr", "coda_stristr", "coda_strnchp", "coda_strxchp"])
p("C13", "Span functions return the exact length of the maximal run",
  "For every buffer, length and alphabet, each span function returns the length of the longest prefix (suffix for the reverse variants) consisting only of alphabet characters, or for the complement variants only of other characters, optionally ignoring ASCII case. They read only the given bytes.",
  I, "every buffer content, length and alphabet", "No test covers them directly.",
  [S, UP], [("span loops", S+": coda_strispn .. coda_revxspc"), ("a caller of the reverse span", UP+": assign_anchor")],
  ["coda_strnspn", "coda_strxspn", "coda_revnspn", "coda_revxspn", "coda_strispn", "coda_strnspc", "coda_strxspc", "coda_revnspc", "coda_revxspc", "coda_strispc"])
p("C14", "Numeric and IPv4 text conversions are exact and bounded",
  "For any bytes and length, the bounded integer conversions return the decimal value of an all-digit text (with optional leading minus for the signed one) that fits and 0 for malformed text. The bounded IPv4 conversion returns the address in network order for four dot-separated decimal octets below 256 and the none-value for any other character, octet or dot count. They read only the given bytes.",
  I, "every byte string and length", "No test covers them; the input is not NUL-terminated so boundary reads matter.",
  ["coda/string.h", "coda/socket.h"], [("digit loops", "coda/string.h: coda_atou, coda_atoi"), ("octet loop", "coda/socket.h: coda_inet_addr")],
  ["coda_atou", "coda_atoi", "coda_inet_addr"])
SC = "coda/string.cpp"
p("C15", "Splitting yields exactly the fields between delimiters",
  "For any text and delimiter set, the string splitter returns the maximal delimiter-free pieces in order (empty ones only when asked for), and joining all pieces restores the text up to the choice of delimiter. The comma-set readers insert exactly the comma-separated items (numeric items by value; items that are not numbers add nothing), and the word iterator returns successive maximal whitespace-free words until the text ends.",
  I, "every NUL-terminated text and delimiter set", "No test covers them.",
  [SC, "coda/easy_parsing.cpp"], [("splitter", SC+": coda_split_string"), ("sets", SC+": coda_get_stringset, coda_get_uint64set"), ("words", "coda/easy_parsing.cpp: get_next_word")],
  ["coda_split_string", "coda_get_stringset", "coda_get_uint64set", "get_next_word"])
p("C16", "Formatted appends produce the whole text, or exactly the requested prefix",
  "For any formatted length, formatting to a string and appending return and add the complete text, including when it exceeds the internal fixed buffer. The bounded variants add exactly the first num bytes when the text is longer and the whole text otherwise, at the requested position, return the number of bytes added, and refuse positions beyond the end without changing the string.",
  I, "every formatted length (short, around and above the internal buffer size), every bound and position", "No test covers them; behaviour changes only around a 32 KiB boundary.",
  [SC], [("two-pass formatting", SC+": coda_strprintf, coda_strappend"), ("truncation", SC+": coda_strnappend, coda_strnprintf")],
  ["coda_strprintf", "coda_strappend", "coda_strnappend", "coda_strnprintf"])
p("C17", "Vietnamese tone removal maps every code point to its base letter only",
  "For valid UTF-8 text, every precomposed Vietnamese letter becomes its unaccented ASCII base letter of the same case, combining diacritical marks vanish, and every other character is preserved byte for byte. For arbitrary bytes the function reads only the given bytes, terminates, and never produces output longer than its input.",
  I, "every Unicode code point in one to four byte form, in any position, and every byte string", "No test covers it; the mapping has 130+ entries and the decoding has truncation paths.",
  ["coda/vietnam.cpp"], [("UTF-8 decoding", "coda/vietnam.cpp: coda_remove_tones_utf8"), ("letter switch", "coda/vietnam.cpp")],
  ["coda_remove_tones_utf8"])
p("C18", "Random strings have the requested length and alphabet; seeding is all-or-nothing",
  "A random string has exactly the requested size and every character is drawn from the first alphabet_size characters of the alphabet, whatever values the generator returns. Seeding reports success only after the generator has been seeded from complete random data, and every seeding attempt, successful or not, leaves no descriptor open.",
  ["inputs", "fault_sequences"], "every generator output sequence; every failure of the random device", "No test covers it; generator values and device faults cannot be chosen by a test.",
  ["coda/random.c", SC], [("seed read", "coda/random.c: coda_random_init"), ("index reduction", SC+": coda_random_string")],
  ["coda_random_string", "coda_random_init"])
CT = "coda/cache.tcc"
p("C19", "The cache returns the last stored value and stays within its size limit",
  "After any sequence of stores, lookups and erasures, a lookup of a key returns the value most recently stored for it or nothing, and returns nothing only if the key was never stored, was erased, expired, or was evicted to make room. After every store the total size of the kept elements does not exceed the limit, and eviction removes elements strictly from the least recently stored end and no more than necessary. Lookups and erasures of absent keys change nothing.",
  ["histories", "inputs"], "every sequence of operations, keys, values, sizes and limits", "The tests run a few fixed sequences with distinct keys; update and eviction interleavings are unbounded.",
  ["coda/cache.hpp", CT], [("recency list relinking", CT+": set, erase"), ("eviction loop", CT+": drop_last_unused"), ("size accounting", CT+": set")],
  ["coda_cache::set", "coda_cache::get", "coda_cache::erase"], state=[("recency list", "doubly linked list through map elements", "coda/cache.hpp: begp, endp"), ("size_cur", "sum of element sizes", "coda/cache.hpp")])
p("C20", "Cache elements expire exactly when their lifetime has passed",
  "With a lifetime configured, a lookup never returns an element older than the lifetime and always returns one that is not older (unless erased or evicted). The age counts from the first store of the key, or from the latest store that asked for the time to be refreshed. Without a lifetime, elements never expire.",
  ["histories", "inputs"], "every history of operations under every non-decreasing clock", "Tests sleep in real time for one configuration.",
  [CT], [("creation time", "coda/cache.hpp: elem_t"), ("expiry test", CT+": get"), ("time refresh", CT+": set")],
  ["coda_cache::get", "coda_cache::set"])
SS = "coda/stringstorage.c"
p("C21", "String storage gives every string one stable, zeroed, private data slot",
  "Adding the same string twice returns the same slot and different strings get different, non-overlapping slots, whatever strings share prefixes. Slots returned earlier stay valid and keep their contents across later additions, start zeroed, have the requested size, and lookup finds exactly the strings that were added. No operation touches memory outside the storage.",
  ["histories", "inputs"], "every sequence of added strings, with any shared prefixes and lengths, and any slot size", "The test adds one fixed word list; prefix sharing beyond eight bytes and block boundaries are rare shapes.",
  [SS, "coda/stringstorage.h"], [("sorted children with shared prefixes", SS+": internal_find_add"), ("block allocation", SS+": internal_find_add"), ("growth of child arrays", SS+": allocate_reallocate_array")],
  ["string_storage_add", "string_storage_find"])
p("C22", "String storage enumeration lists every added string exactly once with its slot",
  "Enumerating the storage calls back exactly once for every distinct string added so far, with that exact string as key and its own data slot, for strings of up to 255 bytes, and with nothing else. Enumeration does not modify the storage or overrun its buffers for longer strings.",
  ["histories", "inputs"], "every set of added strings", "The test enumerates one fixed list.",
  [SS], [("prefix reconstruction", SS+": string_storage_enumerate_recursive")], ["string_storage_enumerate"])
p("C23", "Logarithmic histogram buckets are indexed by floor(log2) and clamped",
  "For every positive value, the bucket selected is the one numbered floor(log2(value)), or the last one if that exceeds the bucket count. Fresh histograms of arithmetic types are all zero, direct indexing reaches the same cells, and swapping exchanges all cells of two histograms.",
  I, "every 64-bit positive value, every bucket count used", "No test covers it; 64-bit domain.",
  ["coda/log_array.hpp"], [("bit loop", "coda/log_array.hpp: get_by_value"), ("zero initialisation", "coda/log_array.hpp: log_array_value_holder")],
  ["coda::log_array"])
HM = "coda/shm_hash_map.tcc"
p("C24", "The shared-memory hash map behaves as a bounded map",
  "After any sequence of inserts, erasures, clears and reads over any keys, reading returns the last inserted value exactly for the keys present; insertion fails only for a new key when the capacity is reached, and then changes nothing. The size equals the number of present keys, iteration visits each present pair exactly once, and batch operations equal their element-wise sequence and report whether all succeeded.",
  ["histories", "inputs"], "every operation history over every key set, with collisions and slot reuse", "There is no test; slot reuse after collisions needs long specific histories.",
  [HM, "coda/shm_hash_map.hpp"], [("chained buckets in shared arrays", HM+": unprotected_insert/erase/read"), ("node pool", "coda/shm_pool.tcc"), ("iteration", "coda/shm_hash_map.hpp: const_iterator")],
  ["shm::hash_map public API"], state=[("hash, objects", "bucket heads and chained nodes", HM)])
p("C25", "The shared map's lock admits many readers or one writer and survives crashes",
  "Every public read runs only while no process holds the map for writing, and every public modification only while no other process reads or writes it, for every number of processes and every interleaving. Each operation leaves the lock as it found it on every return path, and a process that dies at any point while holding it has its claim undone automatically. If the lock cannot be taken the data is not touched and an error is reported.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving and every crash point, from every reachable lock state", "No test runs it even from one process.",
  [HM], [("two-semaphore reader/writer protocol", HM+": lock_read_rw .. unlock_write_rw"), ("automatic undo", HM+": SEM_UNDO")],
  ["semop arguments", "shm::hash_map public API"])
p("C26", "Attaching to a shared map is safe, compatible-only and repeatable",
  "Connecting to a fresh segment yields an empty usable map and connecting to an existing compatible segment sees exactly its contents, with all structures inside the advertised required space and not overlapping. Connecting to an incompatible segment, or any failing system call, reports an error, leaves the object disconnected and holds no attachment or lock; disconnecting releases the attachment, and the object can be connected again afterwards.",
  ["fault_sequences", "histories", "configurations"], "every failure point, every header content, every compile-time geometry used", "No test connects a map at all.",
  [HM, "coda/shm_pool.tcc", "coda/shm_stack.tcc"], [("layout computation", HM+": attach, required_space"), ("compatibility check", HM+": attach"), ("cleanup", HM+": connect, disconnect")],
  ["shm::hash_map::connect", "shm::hash_map::disconnect", "shm::hash_map::is_connected"])
PO = "coda/shm_pool.tcc"
p("C27", "The shared object pool never hands out a slot twice",
  "From any reachable state, allocation returns an index below the capacity that is not currently allocated, or the exhausted marker exactly when all are allocated, and a freed index becomes allocatable again. The count of allocated objects is exact, and clearing frees everything.",
  ["histories"], "every history of allocations, frees and clears, of any length", "No test covers the pool; reuse order depends on the full history.",
  [PO, "coda/shm_stack.tcc"], [("high-water mark plus free stack", PO+": allocate, free"), ("stack push/pop", "coda/shm_stack.tcc")],
  ["shm::pool", "shm::stack"])
Q = "coda/shm_queue.tcc"
p("C28", "Shared-memory queue delivers flushed boxes once, in order, unless full",
  "Across any interleaving of writers and readers, each box accepted by a flush is delivered to exactly one reader, unchanged and in acceptance order, and a flush is dropped only when the ring is full. The count of available boxes equals the number of boxes accepted and not yet taken, and records put into one box come out in order and complete. Putting never writes beyond the box.",
  ["histories", "schedules", "inputs"], "every history of puts, flushes, unflushes and gets over every ring position", "No test covers the queue; wrap-around and full/empty boundaries need specific histories.",
  [Q, "coda/shm_queue.hpp"], [("ring indices", Q+": flush, unflush"), ("counting semaphore", Q+": flush, unflush"), ("box cursor", Q+": box::put, box::get")],
  ["shm_queue::queue public API"])
p("C29", "Shared-memory queue operations hold its lock, and failures leave nothing behind",
  "Shared queue data (ring, indices, registers) is only read or written while holding the queue lock, which is released on every return path and undone automatically if the process dies. A failed connection reports an error and leaves the object disconnected with the lock released and no attachment, so it can be retried; a mismatching existing segment is refused.",
  ["schedules", "fault_sequences", "crash_points"], "every failing system call at every step, every crash point", "No test covers the queue.",
  [Q], [("binary semaphore with undo", Q+": lock_queue, unlock_queue"), ("connect sequence", Q+": connect, connect_sem, connect_shm")],
  ["semop arguments", "shm_queue::queue::connect"])
p("C30", "The in-process queue is FIFO, loses nothing and never deadlocks its users",
  "For any interleaving of producers and consumers, every added element is returned by exactly one get, in order of addition, and gets return elements whenever one is present at the time they run. The internal lock is released on every path, is held whenever the elements are touched, each add wakes a waiting consumer, a waiting get returns after being signalled even if the queue is still empty, and batch gets never exceed the requested maximum.",
  ["schedules", "histories"], "every schedule of producers and consumers, including spurious wake-ups", "No test covers it; schedules cannot be enumerated by a test.",
  ["coda/synque.hpp"], [("mutex-protected deque", "coda/synque.hpp"), ("condition variable", "coda/synque.hpp: add, signal, get")],
  ["coda::synque"])
SY = "coda/system.c"
p("C31", "No descriptor leaks or double closes, whatever system calls fail",
  "Every helper that opens, duplicates, accepts, listens, connects, reads or maps files leaves open, on failure, only descriptors that existed before the call (a target descriptor the caller named may already have been replaced), and on success only the one it returns or installs. No descriptor is closed twice or used after being closed, and failure is reported whenever a required step failed.",
  ["fault_sequences"], "every combination of failing and succeeding system calls", "Tests never make a system call fail.",
  [SY, "coda/socket.h", "coda/daemon.c", "coda/random.c"], [("error paths", SY+": coda_fdmove, coda_fdopen, coda_mmap, coda_mkpidf"), ("socket set-up", "coda/socket.h: coda_listen, coda_accept, coda_connect"), ("detach", "coda/daemon.c: coda_daemon_fork")],
  ["system calls issued"])
p("C32", "At most one process acquires a pid file and it records that process",
  "If any number of processes create the same pid file concurrently, at most one succeeds until the file is removed, whatever the interleaving. On success the file contains exactly the caller's pid in decimal followed by a newline; success is never reported if the content could not be fully written, and a non-empty existing file is never modified.",
  ["schedules", "fault_sequences"], "every interleaving of competing processes and every failing or partial system call", "No test creates a pid file.",
  [SY], [("exclusive lock then size check then write", SY+": coda_mkpidf")], ["coda_mkpidf"])
p("C33", "Path creation makes exactly the missing parent directories",
  "For any path, creation attempts exactly the directories named by the prefixes ending before each '/' after the first character, in order, treats already existing ones as success, stops at the first real failure and reports it. The caller's string is unchanged on return and is read only up to its terminator.",
  ["inputs", "fault_sequences"], "every path text and every outcome of each creation", "No test covers it.",
  [SY], [("prefix walk", SY+": coda_mkpath")], ["coda_mkpath", "mkdir calls"])
p("C34", "File mapping maps the whole requested region with matching access",
  "Mapping a file with no size given maps exactly its current length; with a size given the file is first brought to that size; without a file an anonymous region of that size is mapped. The file is opened for writing exactly when write protection is requested, protection and flags are passed on unchanged, and success is reported exactly if the region stays mapped.",
  ["inputs", "fault_sequences"], "every size, protection, flag set and failing step", "No test covers it.",
  [SY], [("open mode and size selection", SY+": coda_mmap")], ["coda_mmap"])
D = "coda/daemon.c"
p("C35", "Signals set exactly their flag and masks cover exactly the requested signals",
  "After initialisation, each handled signal sets exactly its own request flag (terminate, reload, rotate, upgrade) or none if it is merely absorbed, and every handled signal gets the same handler in both variants; the no-restart variant makes interrupted calls return. Masking applies to exactly the handled signals selected by the mask and any failure is reported.",
  ["inputs", "fault_sequences"], "every signal number, every mask, every failing registration", "No test delivers signals.",
  [D], [("signal table", D+": CODA_SIG_LIST"), ("handler", D+": coda_signal_handle"), ("mask", D+": coda_signal_mask")],
  ["coda_signal_init", "coda_signal_init_norestart", "coda_signal_mask", "request flags"])
p("C36", "The logger emits exactly the messages at or below its level, to its file",
  "A message is written exactly when its level does not exceed the current level, with zero-padded date, time and milliseconds, level name and thread name. Level names given by their first letters in any case select their level and anything else selects the default. Opening a log creates its parent directories, appends to the file on standard error, and sets the level only if all of that succeeded.",
  ["inputs", "fault_sequences"], "every level, level text, time stamp and failing step", "No test covers the logger.",
  ["coda/logger.c", "coda/logger.h"], [("threshold", "coda/logger.h: log_fmt"), ("level names", "coda/logger.c: log_levels"), ("creation", "coda/logger.c: log_create")],
  ["log_levels", "log_create", "log_fmt"])
p("C37", "Calendar conversion is exact for every non-negative time",
  "For every non-negative time value in the supported range, the conversion yields the proleptic Gregorian UTC date and time: full year, month 1-12, day of month, hour, minute, second and weekday. Millisleep requests exactly the given number of milliseconds.",
  I, "every second from 1970 to the stated bound", "No test covers it; leap-year and century rules apply at isolated days among billions.",
  ["coda/gmtime.h"], [("closed-form calendar arithmetic", "coda/gmtime.h: coda_gmtime"), ("unit split", "coda/gmtime.h: coda_msleep")],
  ["coda_gmtime", "coda_msleep"])
T = "coda/txml.cpp"
p("C38", "XML loading assigns each member from its element or attribute and nothing else",
  "For any document event stream, a member bound to a path receives exactly the character data (concatenated over chunks) of the element at that path, or the value of the attribute of that name; unrelated elements, their text and siblings never affect it. Sequence members get one entry per matching element in document order, booleans follow the on/off vocabulary, and a parse error is reported as an exception with the parser and file released.",
  ["inputs", "histories"], "every well-nested sequence of element, attribute and text events; every chunking", "Tests load fixed documents; text chunking is decided by the XML library.",
  [T, "coda/txml.hpp"], [("level stack", T+": begelement, endelement"), ("path match", "coda/txml.hpp: determineMember"), ("value setters", T+": setValue")],
  ["coda::txml_determination_object::load_from_string", "coda::txml_determination_object::load_from_file"])
p("C39", "Option parsing and daemon start/stop do exactly what was asked",
  "Option parsing resets the options first, stores the last given config and pid paths and the last given detach choice, and rejects unknown options. Starting installs signal handling, then detaches if asked, then creates the pid file if asked, stopping at the first failure; stopping removes the pid file exactly if one was configured. Detaching ends the parent, starts a new session and points standard input and output at the null device.",
  ["inputs", "fault_sequences"], "every option sequence and every failing step", "No test starts a daemon.",
  [D], [("option loop", D+": coda_getopt_parse"), ("start sequence", D+": coda_daemon_load"), ("detach", D+": coda_daemon_fork")],
  ["coda_getopt_parse", "coda_daemon_load", "coda_daemon_stop", "coda_daemon_fork"])
p("C40", "Socket helpers retry interruptions and set up exactly the requested endpoint",
  "Receiving retries as long as it is interrupted by signals and otherwise returns the call's own result or an error. Listening and connecting use exactly the given address and port in network order with address reuse and the requested blocking mode; a connection still in progress counts as success and any other failing step as failure.",
  ["fault_sequences", "inputs"], "every sequence of interruptions and failures, every port and address", "No test opens a socket.",
  ["coda/socket.h"], [("EINTR loop", "coda/socket.h: coda_unix_recv"), ("endpoint set-up", "coda/socket.h: coda_listen, coda_connect, coda_accept")],
  ["coda_unix_recv", "coda_listen", "coda_connect", "coda_accept"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import re
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert re.match(r"^[A-Z][0-9]{2,3}$", x["id"])
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
