"""Writes properties.jsonl (the single place where the property texts live)."""
import json, sys, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Only content verified against the index is ever written to the target",
 "When an extraction exits with status 0, every byte range that the index describes holds, at exactly that offset and length, content whose SHA-256 is the ID the index gives for it. Bytes that do not verify this way are never written into the target, not even by a run that ends in failure. Both hold whatever the stores deliver (wrong, stale, corrupted or oversized chunks, seeds that change or are overwritten while the run reads them), whatever the target held before, and also for an index that is inconsistent in itself.",
 ["inputs", "configurations", "histories"],
 "every index file, every target content, every combination, order and content of stores, including stores that lie or change during the run",
 "The end-to-end tests try ten hand-made histories with one corrupted HTTP chunk and one corrupted side-loaded seed; the guarantee quantifies over every index, store content and target state.",
 ["main.c", "target.c", "store-local.c", "store-http.c", "store.c", "caibx.c"],
 [("chunk hash comparison after an HTTP fetch", "store-http.c:store_http_get_chunk"),
  ("chunk hash comparison for local stores", "store-local.c:store_local_get_chunk"),
  ("prefix check", "target.c:target_check_chunk"),
  ("length comparison against the index and reuse of the previous chunk", "main.c:entry_cb"),
  ("entry validation", "caibx.c:caibx_iterate_entries")],
 [("last_id/buf", "previously fetched chunk that is reused for a repeat", "main.c:entry_cb")],
 ["exit status", "target bytes"])

prop("C02", "Extraction succeeds exactly when every chunk can be obtained",
 "For a well-formed index whose chunks are at most 256 KiB, extraction exits 0 if every chunk is already part of the target's intact prefix or can be supplied by at least one of the given stores, and exits non-zero if some chunk beyond that prefix cannot be supplied by any of them. This does not depend on what the target held before, on the size of a store (empty and tiny seeds and empty images included), on how often and in which order chunks repeat, on whether target and seeds are regular files or block devices, nor on log level or progress display.",
 ["inputs", "configurations"],
 "every valid index (any chunk count from zero, sizes, repeats, chunk size parameters), every initial target, every set and order of stores, regular file or block device, any log level, terminal or not",
 "Existing tests use three or four chunks of one size family with 1 MiB targets; small seeds, empty images, odd chunk size parameters, many repeats and several stores are not reached.",
 ["main.c", "store.c", "store-local.c", "index.c", "target.c", "utils.c"],
 [("store chain walk", "store.c:store_chain_get_chunk"), ("seed scan", "store-local.c:store_scan"),
  ("sorted-array lookup", "index.c"), ("size of file or block device", "utils.c:fd_size")],
 observe=["exit status", "target bytes"])

prop("C03", "Nothing outside the image's extent of the target is modified",
 "An extraction, successful or not, changes nothing but the bytes of the target between offset 0 and the image length given by the index: bytes behind the image stay as they were, a target larger than the image keeps its size, and neither the index, a side-loaded index nor any seed is modified. A target that does not exist is never created and leads to failure. When the index is refused, nothing is written at all.",
 ["inputs", "configurations", "fault_sequences"],
 "every index, target size (smaller, equal, larger than the image), store set and failure point",
 "No test looks at the bytes behind the image, at the seeds, or at a run that fails.",
 ["main.c", "target.c", "utils.c", "store-local.c"],
 [("positional write of one chunk", "target.c:target_write"), ("open without O_CREAT/O_TRUNC", "target.c:target_new"),
  ("read-only open of seeds and index", "store-local.c:store_local_new")],
 observe=["target bytes and size", "seed and index bytes", "writes issued"])

prop("C04", "An interrupted extraction resumes and keeps its progress",
 "If an extraction is interrupted at any point, even in the middle of writing a chunk, running it again with the same index completes with the correct image. The rerun neither requests from a store nor writes again any chunk of the leading run of chunks that is already completely and correctly on the target. This holds for any number of successive interruptions and with the target listed as a store.",
 ["crash_points", "histories"],
 "every interruption point (before, inside and after each write), any number of repeated interruptions, every index and store set",
 "test_resumption starts from one hand-written two-chunk prefix; no run is ever really interrupted, no partial chunk is left behind.",
 ["main.c", "target.c"],
 [("prefix skipping", "main.c:entry_cb"), ("prefix check and indexing of checked chunks", "target.c:target_check_chunk")],
 [("resuming", "still inside the intact prefix", "main.c:entry_cb")],
 ["target bytes", "HTTP requests", "writes issued"])

prop("C05", "Stores are asked in command-line order and only for what is missing",
 "For each chunk the given stores are consulted in the order of the command line, and a store is asked only if no earlier working store supplied the chunk; in particular no HTTP request is made for a chunk an earlier local store can supply. A chunk that immediately repeats is not requested again. With the target listed as the first store, no chunk that is already in place anywhere in the part of the target processed so far is requested from a later store.",
 ["inputs", "configurations", "histories"],
 "every index (with any pattern of repeats) and every ordered set of local, HTTP and target stores with any overlap of contents",
 "Three tests count requests for a single duplicated chunk; order, overlaps between stores and longer repeat patterns are not sampled.",
 ["store.c", "main.c", "target.c"],
 [("ordered walk with early return", "store.c:store_chain_get_chunk"), ("reuse of the previous chunk", "main.c:entry_cb"),
  ("target as a store", "target.c:target_as_store, target_add_chunk")],
 observe=["sequence of HTTP requests", "reads issued on seeds"])

prop("C06", "A failing store is switched off without affecting the others",
 "When a store fails (as opposed to not having the chunk), the chunk is still taken from any later store that has it, the failed store is never consulted again during the run, and all other stores keep being consulted. A store that merely lacks a chunk stays in use. If no working store has a chunk that is needed, the extraction exits non-zero and stops at that chunk, leaving all earlier chunks in place.",
 ["fault_sequences", "configurations"],
 "every sequence of hits, misses and failures over any number of stores, with real I/O errors on seeds and fatal HTTP errors",
 "No test contains a failing store; the only multi-store tests have one seed and one healthy HTTP server.",
 ["store.c", "main.c"],
 [("deactivation on negative result", "store.c:store_chain_get_chunk"), ("abort on missing chunk", "main.c:entry_cb")],
 [("active", "store still in use", "store.c:struct substore")],
 ["which stores are accessed", "exit status", "target bytes"])

prop("C07", "A wrong side-loaded index never changes the outcome",
 "A seed's side-loaded index is only a hint: as soon as an entry of it turns out not to match the seed (different bytes, a range outside the seed, an impossible length), the whole hint is discarded, the seed is scanned, and every chunk the seed contains is found as if no index had been given. An index that is unreadable, malformed, empty or made with other chunk size parameters is likewise ignored in favour of scanning. As long as the hint is right, the seed is not scanned.",
 ["inputs", "histories"],
 "every pair of seed content and side-loaded index: right, stale, truncated, bit-flipped, for other data, with entries beyond the seed, of zero or huge length",
 "One test flips four bytes of a seed with an otherwise right index; a hint that reaches beyond the seed or is malformed is never tried.",
 ["store-local.c", "caibx.c"],
 [("verification of side-loaded entries and rescan", "store-local.c:store_local_get_chunk"),
  ("fallback to scanning", "store-local.c:store_local_new"), ("parameter comparison", "store-local.c:store_sideload_index")],
 observe=["exit status", "target bytes", "HTTP requests", "reads issued on the seed"])

prop("C08", "Chunk boundaries and IDs are those of casync",
 "For every input and all chunk size parameters min < avg < max with min of at least one 48-byte hash window, a local store is cut at exactly the positions the casync algorithm prescribes, and each chunk's ID is the SHA-256 of its bytes. Every chunk but the last is at least min and every chunk is at most max bytes long, and the chunks cover the input completely and without overlap.",
 ["inputs", "configurations"],
 "every byte sequence and every chunk size parameter triple",
 "One 100 MiB pseudo-random stream with default parameters is compared with recorded boundaries; other parameters, low-entropy data, cuts at exactly min or max and short tails are not.",
 ["chunker.c", "chunk.c", "chunker.h"],
 [("buzhash over a 48 byte window", "chunker.c:chunker_scan"), ("break condition", "chunker.c:chunker_shall_break"),
  ("discriminator", "chunker.c:chunker_init")],
 [("window, h, chunk_size", "rolling state", "chunker.h:struct chunker")],
 ["which chunks of a seed are found", "chunker API results"])

prop("C09", "Chunking does not depend on how the input is read",
 "The chunks found in a store (boundaries and IDs) depend only on its bytes: splitting the input into reads of any sizes, including single bytes, empty pieces, pieces ending exactly at a chunk boundary and reads interrupted by signals, gives the same chunks as reading it at once. After reporting a boundary nothing more is consumed until the chunker is restarted, and a restarted chunker behaves like a new one.",
 ["inputs", "schedules", "histories"],
 "every input and every partition of it into reads",
 "Unit tests feed 512-byte blocks and eight hand-written splits of 128 bytes.",
 ["chunker.c"],
 [("window filling over several calls", "chunker.c:chunker_scan"), ("read loop and carry-over", "chunker.c:chunker_scan_fd"),
  ("reset", "chunker.c:chunker_reset")],
 observe=["which chunks of a seed are found under short reads", "chunker API results"])

prop("C10", "A valid index is followed to the letter, a damaged one is refused",
 "Every well-formed blob index is accepted and its entries are processed completely, in order, with each chunk's offset, length and ID as recorded. An index with a wrong magic number, truncated or extended table, inconsistent footer, unsupported feature flag (such as another digest), non-increasing or over-32-bit chunk size parameters, or an entry that does not advance or spans more than 32 bits can describe makes the extraction fail.",
 ["inputs"],
 "every byte string offered as an index, in particular every single-field corruption, truncation and extension of valid ones",
 "Only well-formed indices written by one helper (and one by casync) are tried; no rejection path is executed.",
 ["caibx.c", "chunker.c"],
 [("header, table header and footer validation", "caibx.c:caibx_load_header"), ("entry iteration", "caibx.c:caibx_iterate_entries"),
  ("parameter validation", "chunker.c:chunker_params_set")],
 observe=["exit status", "target bytes", "entries reported"])

prop("C11", "No input makes the program crash, corrupt memory or hang",
 "Whatever bytes are supplied as index, side-loaded index, seed, target content, HTTP response, key file or command-line store specification, the programs end in finite time with an ordinary exit status of 0 or 1. They never abort, divide by zero, access memory outside an object or execute undefined behaviour.",
 ["inputs", "configurations"],
 "arbitrary bytes in every file or response the programs read, and arbitrary store specifications",
 "The tests supply only well-formed inputs (one chunk body with wrong content aside).",
 ["caibx.c", "index.c", "chunker.c", "store-local.c", "store-http.c", "encrypt.c", "utils.c", "main.c", "csn-tool.c"],
 [("input validation throughout", "caibx.c, store-http.c:handle_data, encrypt.c:encrypt_parse_keyspec"),
  ("bounds of the chunk buffer", "main.c:entry_cb")],
 observe=["exit status", "sanitizer reports"])

prop("C12", "An HTTP response yields its chunk regardless of how it is delivered",
 "A response with status 200 whose (decrypted) body is a sequence of zstd frames, starting with a regular one, that decompresses to exactly the requested chunk supplies that chunk, however the body is compressed (level, frames, checksum, content size) and however it is split into pieces by the network. A response that does not yield exactly the chunk - other or incomplete content, oversized, not zstd, wrong key, other status - supplies nothing and does not impair later requests to the same store.",
 ["inputs", "schedules", "histories"],
 "every response body, every fragmentation of it, every status, and every sequence of such responses",
 "The test server always sends one well-formed body at once with status 200; fragmentation below the zstd magic, multi-frame bodies and sequences of bad and good responses never occur.",
 ["store-http.c", "encrypt.c"],
 [("buffering of unconsumed data", "store-http.c:store_http_data_cb, decode_buffer_absorb"),
  ("streaming decompression", "store-http.c:handle_data"), ("ID check", "store-http.c:store_http_get_chunk")],
 [("decode_buffer, state", "data carried between pieces of one response", "store-http.c")],
 ["chunk bytes on the target", "exit status"])

prop("C13", "Transient HTTP failures are retried, persistent ones disable the store",
 "A request that fails to resolve, connect or times out, before or in the middle of a response, is repeated after pauses that double up to at most ten seconds, with ten attempts in total, and if any of these attempts delivers the complete response the chunk is obtained. Requests given up this way and unexpected HTTP error statuses (400 and above except 404 and 410) count as failures of the store: the request is answered as missing, and the store is switched off exactly when more than ten such failures accumulate without a successful download in between. Statuses 404 and 410 never count, and a stalled transfer is detected as a timeout rather than waited for forever.",
 ["fault_sequences", "histories"],
 "every sequence of per-attempt outcomes (connect/resolve failure, timeout at any body position, error status, missing, success) over any number of chunks",
 "No test has a failing or slow HTTP server.",
 ["store-http.c"],
 [("retry loop with back-off", "store-http.c:retried_curl_easy_perform"), ("error counter", "store-http.c:increase_error_counter"),
  ("low-speed timeout", "store-http.c:store_http_new")],
 [("error_count", "unrecovered failures since the last success", "store-http.c:struct store_http")],
 ["sequence of requests and pauses", "chunk bytes on the target", "exit status"])

prop("C14", "Encrypted chunks are XChaCha20 under the chunk ID, in csn and csn-tool alike",
 "An encrypted chunk is the compressed chunk XORed with the XChaCha20 keystream for the configured key, with the first 24 bytes of the chunk ID as nonce and the block counter starting at 0, for every key, ID and length. csn-tool produces exactly these bytes, applying it twice restores the input, and csn extracts from a store holding them no matter how the data is split into pieces or how many chunks were processed before with the same key.",
 ["inputs", "schedules", "histories"],
 "every key, chunk ID, data length (0, around 64-byte block and piece borders, large) and partition, and every sequence of chunks handled by one process",
 "Three fixed test vectors of at most 304 bytes, always processed in one call.",
 ["encrypt.c", "csn-tool.c", "store-http.c"],
 [("subkey derivation", "encrypt.c:hchacha20"), ("per-chunk restart", "encrypt.c:encrypt_restart"),
  ("streaming", "encrypt.c:encrypt_do")],
 observe=["csn-tool output bytes", "csn exit status and target"])

prop("C15", "An encryption key is exactly 64 hex digits from its declared source",
 "A key specification is accepted if and only if it names its source as key:, env: or file: and that source yields exactly 64 hexadecimal digits (either case; a file may end in line breaks), and the key used is then exactly those 32 bytes. Anything else - other length, other characters, missing variable or file, unknown prefix or store attribute - is refused: csn and csn-tool exit non-zero, csn before any request, and csn-tool without producing output.",
 ["inputs", "configurations"],
 "every key specification string, environment and key file content, through csn store attributes and csn-tool",
 "One literal lower-case key is used in one test.",
 ["encrypt.c", "utils.c", "store-http.c", "csn-tool.c"],
 [("keyspec parsing", "encrypt.c:encrypt_parse_keyspec"), ("hex decoding", "utils.c:parse_hex"),
  ("line break removal", "utils.c:chomp"), ("attribute parsing", "store-http.c:store_handle_params")],
 observe=["exit status", "csn-tool output", "HTTP requests"])

prop("C16", "csn-tool crypt maps files as documented and never alters existing ones",
 "csn-tool crypt accepts exactly input names made of 64 hex digits plus .cacnk or .cacnk.enc, writes to the given output, to standard output for '-', or else to the same path with .enc added or removed; with no paths it does so for every line of standard input. An output file that already exists is left untouched, inputs are never changed, and no other file is created. Exit status 0 means that every named input has a corresponding output file; a run that fails to write an output does not leave a truncated one behind.",
 ["inputs", "histories", "fault_sequences"],
 "every list of input names and contents, every mix of existing and missing outputs, every write error position",
 "csn-tool has no tests at all.",
 ["csn-tool.c", "utils.c"],
 [("name parsing", "csn-tool.c:chunk_id_from_path"), ("output path derivation and existence check", "csn-tool.c:encrypt_one"),
  ("list mode", "csn-tool.c:do_crypt")],
 observe=["directory contents", "standard output", "exit status"])

prop("C17", "Using the kernel crypto API never changes a result",
 "With hashing delegated to the kernel, every hash equals the one computed in user space, for every data length including zero, any number of hashes in a row, partial and interrupted transfers to the kernel, and any kernel error at any point of any hash, after which hashing continues in user space. The outcome of an extraction is therefore the same with and without it; only a driver that cannot be set up at all makes the run fail at start.",
 ["inputs", "fault_sequences", "schedules"],
 "every data sequence and every sequence of kernel responses (short send, EINTR, error on send or receive at the n-th operation)",
 "The kernel mode tests need AF_ALG (absent here), use three inputs and no errors.",
 ["sha.c", "main.c"],
 [("send/recv loop and fallback", "sha.c:sha_once"), ("setup", "sha.c:sha_kcapi_init")],
 [("kcapi_fd", "kernel hashing in use", "sha.c")],
 ["hash values", "exit status and target bytes"])

prop("C18", "Short and interrupted I/O is invisible, I/O errors are reported",
 "Reads and writes that the operating system completes only partially or interrupts with a signal, at any point and in any number, change neither the exit status nor any byte of the result of csn, csn-tool or patchdd. An I/O error or premature end of file on the index, or an error when writing the target, makes csn exit non-zero; no I/O error pattern ever leads to exit status 0 with wrong content.",
 ["schedules", "fault_sequences"],
 "every sequence of partial transfers, EINTR and errors over all file operations of a run",
 "Tests run on local files where reads and writes are always complete and never fail.",
 ["utils.c", "chunker.c", "target.c"],
 [("full-transfer loops", "utils.c:readall, preadall, writeall, pwriteall"), ("scan read loop", "chunker.c:chunker_scan_fd")],
 observe=["exit status", "file bytes"])

prop("C19", "patchdd makes the destination start with the source and touches nothing else",
 "When patchdd exits 0, the destination's first bytes equal the source, its remaining bytes and its size are unchanged, and the source is unmodified. Data that already matches is not rewritten: within each 1 MiB step nothing before the first difference is written, and equal contents cause no writes. A destination smaller than the source is refused without writing, and any read, write or sync error gives a non-zero exit status.",
 ["inputs", "fault_sequences"],
 "every pair of source and destination contents and sizes, including around 1 MiB steps, and every I/O error",
 "patchdd has no tests.",
 ["patchdd.c", "utils.c"],
 [("compare-and-write loop", "patchdd.c:main"), ("size check", "patchdd.c:main")],
 observe=["destination bytes", "writes issued", "exit status"])

prop("C20", "The casync command line is equivalent to the csn command line",
 "Called as casync, 'extract INDEX TARGET' with any sequence of --store and --seed options (both spellings of the argument, before or after the word extract, with --seed-output ignored) has the same exit status, writes the same target and makes the same requests in the same order as csn with these values as its stores. A command line without index and target, with an unknown option or without the extract command is refused with a non-zero status and without touching the target; any program name other than csn and casync is refused as well, and asking casync for help does nothing else.",
 ["configurations", "inputs"],
 "every option sequence accepted by the casync front-end and every scenario",
 "The casync front-end is not executed by any test.",
 ["main.c"],
 [("option parsing", "main.c:casync"), ("shared store construction", "main.c:append_store_from_arg")],
 observe=["exit status", "target bytes", "HTTP requests"])

prop("C21", "Chunk lookup is exact however many chunks there are and in whatever order",
 "Every chunk of a scanned seed, of a side-loaded index, and of the processed part of the target when that is a store, is found under its ID with its own content, and an ID that was never recorded is reported as missing. This holds for any number of chunks beyond the initially estimated capacity, any interleaving of recording and looking up, duplicate IDs, and IDs that differ only in a single bit or byte.",
 ["histories", "inputs"],
 "every interleaving of recordings and lookups, any number of entries, any set of IDs",
 "Tests store at most four chunks with unrelated IDs and never exceed the initial capacity.",
 ["index.c", "store-local.c", "target.c"],
 [("growth", "index.c:index_insert"), ("lazy sorting and binary search", "index.c:index_query"),
  ("insert-if-absent", "target.c:target_add_chunk")],
 [("entries, sorted", "array and whether it is in order", "index.h:struct index")],
 ["lookup results", "exit status", "target bytes"])

prop("C22", "Positions beyond 4 GiB are handled exactly",
 "Chunks located beyond 2 GiB and 4 GiB in the target, in a seed, in a side-loaded index or in the source and destination of patchdd are read from and written to exactly their 64-bit position, and a resumed run verifies them there. Nothing is read from or written to the position modulo 2^31 or 2^32 instead.",
 ["inputs"],
 "every offset representable in a file, in particular around 2^31 and 2^32",
 "All test images are at most 1 MiB.",
 ["caibx.c", "target.c", "store-local.c", "index.h", "utils.c", "patchdd.c"],
 [("64-bit offsets end to end", "caibx.c:caibx_iterate_entries, index.h:struct index_entry, utils.c:pwriteall, preadall")],
 observe=["positions of reads and writes", "target bytes"])

prop("C23", "HTTP requests follow the casync store layout",
 "For every store URL, with or without a trailing slash, path, port or attribute fragment, and of any length, the chunk with ID H is requested at exactly URL/hhhh/H.cacnk, or URL/hhhh/H.cacnk.enc if the store is configured with encryption, where H is 64 lower-case hex digits and hhhh its first four. The fragment is never sent, and stores with and without encryption can be combined freely, each using its own settings.",
 ["inputs", "configurations"],
 "every base URL form and length, every chunk ID, every combination of encrypted and plain stores",
 "One base URL without path is used.",
 ["store-http.c", "chunk.c"],
 [("URL construction", "store-http.c:set_url"), ("base URL normalisation and attributes", "store-http.c:store_http_new, store_handle_params"),
  ("ID formatting", "chunk.c:chunk_format_id")],
 observe=["requested URLs"])

prop("C24", "Memory and file descriptors do not pile up",
 "The memory and the file descriptors in use do not grow with the amount of work done: not with the number of chunks fetched, retries, misses, refused or damaged responses, failed lookups or chunks read from seeds in a run of csn, not with the number of files csn-tool processes or skips in one call, nor with the amount of data patchdd compares. Only the lookup tables grow, in proportion to the number of chunks recorded in them.",
 ["histories", "inputs"],
 "every number of repetitions of every mixture of outcomes",
 "Tests fetch a handful of chunks; a buffer lost per chunk or retry is not noticed, nor by the leak checker if it is still referenced.",
 ["store-http.c", "store-local.c", "encrypt.c", "csn-tool.c", "patchdd.c", "index.c", "utils.c"],
 [("per-request reset of transfer and decoder state", "store-http.c:request_reset, decode_buffer_absorb"),
  ("cipher state reused between chunks", "encrypt.c:encrypt_restart"), ("files closed after each item", "csn-tool.c:encrypt_one, utils.c:slurp_file"),
  ("growth of tables", "index.c:index_insert")],
 observe=["bytes allocated at exit and at the peak", "open descriptors at exit"])

prop("C25", "Progress, statistics and messages tell what is done and change nothing",
 "csn's standard output carries nothing but the progress display, which appears only on a terminal and not together with debug messages; patchdd shows the same display on a terminal, once per MiB step. After every chunk (step) the whole percentage of the chunks (bytes) processed so far is shown, skipped ones included, and 100 % only when everything has been processed. At the end of a successful run csn reports exactly how many chunks of the target were kept as a prefix, how many were looked up and how many each store answered, in command-line order; patchdd reports exactly how many bytes did not have to be written. Messages go to standard error, one whole line each, those up to the level given by LOGLEVEL (err/error, warn/warning, info, debug; info if unset or unknown, the latter with a warning), and neither LOGLEVEL nor a terminal changes any result.",
 ["inputs", "histories", "configurations"],
 "every scenario, number of chunks, log level and kind of output",
 "Tests never run on a terminal and do not look at messages.",
 ["main.c", "ui.c", "log.c", "store.c", "patchdd.c"],
 [("progress of a run", "main.c:entry_cb, ui.c:show_progress"), ("statistics", "store.c:store_chain_free, main.c:main, patchdd.c:main"), ("message filter and format", "log.c:u_log_init, _u_log")],
 [("answered queries", "counters per store", "store.c:struct substore")],
 ["standard output", "messages on standard error", "exit status"])

prop("C26", "Running out of memory is an error like any other",
 "Whichever allocation fails for lack of memory, be it one of csn's or csn-tool's own or one made for them by a library (transport handle and its options, decoder, cipher), once, several times in a row or from then on, the program neither crashes nor corrupts memory and ends with an ordinary exit status. csn then exits 0 only if the image is complete nonetheless, for example because another store supplied the chunk; it never writes anything unverified or outside the image, and a later run with enough memory completes the image. csn-tool exits 0 only if every requested output is there, leaves no output with wrong or partial content and changes no existing file.",
 ["fault_sequences", "inputs"],
 "every single allocation of every run, and every sequence of failing ones",
 "Tests never run out of memory, so that none of the error paths behind allocations is ever taken.",
 ["store-http.c", "store-local.c", "store.c", "index.c", "target.c", "encrypt.c", "utils.c"],
 [("growth of tables", "index.c:index_insert, store.c:store_chain_append"), ("growth of the decode buffer", "store-http.c:decode_buffer_absorb"),
  ("construction and its error paths", "store-http.c:store_http_new, store-local.c:store_local_new, target.c:target_new, store.c:store_chain_new"),
  ("cipher and file buffers", "encrypt.c:encrypt_init, encrypt_restart, utils.c:slurp_file")],
 [("table capacity", "never more than what is allocated", "index.c:index_insert, store-http.c:decode_buffer_absorb")],
 ["exit status", "content of the target", "output files of csn-tool"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
