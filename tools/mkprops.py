#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe_at, hook_needed=hook)))

prop("C01", "A successful extraction is exactly the image the index describes",
 "Whenever csn (or casync extract) exits 0, every byte range of the target that the index lists hashes (SHA-256) to the chunk ID listed for it, and adjacent ranges follow each other without gaps. This holds whatever the local stores, side-loaded indices, HTTP servers, the target's previous contents and the target used as a store contain or answer, including data whose hash agrees with the wanted ID only in part, stores that change while being used, and read glitches. If some chunk cannot be obtained with exactly the listed ID and length, the exit status is non-zero.",
 ["inputs","configurations","fault_sequences"],
 "all indices, all store contents and answers (hostile ones included), all orders of stores, all previous target contents",
 "The end-to-end tests extract four hand-made chunk lists and corrupt one chunk once; they never offer near-miss hashes, mismatching lengths, stores that change under the tool, repeated IDs with other lengths, or hostile side-loaded indices.",
 ["main.c","store.c","store-local.c","store-http.c","target.c","caibx.c","chunk.c","sha.c"],
 [("hash comparison of HTTP chunk","store-http.c:store_http_get_chunk"),("validation of chunks from local stores","store-local.c:store_local_get_chunk"),("length check before writing","main.c:entry_cb"),("prefix check","target.c:target_check_chunk")],
 ["exit status","final bytes of the target, re-hashed by an independent implementation"],
 [("INDEX_FLAG_VALIDATED","local entry known to match the store","store-local.c"),("last_id","ID of the chunk held in the buffer","main.c:entry_cb")])

prop("C02", "Only prescribed bytes ever reach the target, and only in their place",
 "At every moment of every run - succeeding, failing, or killed at any point - each byte of the target is either the byte that was there before the run or the byte the index prescribes for that offset. Nothing at or beyond the end of the described image is altered, and the target is never truncated or extended beyond the end of the described image.",
 ["inputs","crash_points","fault_sequences"],
 "all runs including failing and interrupted ones, all store answers, all kill points between and inside writes",
 "The tests look at the target only after successful runs and only inside the image; failing runs' targets, the tail beyond the image and intermediate states are never examined.",
 ["main.c","target.c","utils.c"],
 [("verification before writing","main.c:entry_cb"),("positioned writes","utils.c:pwriteall"),("open without O_CREAT/O_TRUNC","target.c:target_new")],
 ["every write to the target (logged at the system-call boundary)","target contents after the run or kill"])

prop("C03", "A sync succeeds if every chunk is available from some usable store",
 "If every chunk of a well-formed index (with chunk size parameters casync's chunker supports) is at most 256 KiB and can be supplied intact by at least one well-behaved store given on the command line (a readable file or device that contains it, or an HTTP store that serves it, directly or through redirects) or is part of the already correct prefix of the target, the run exits 0. This holds whatever the other stores do: lack the chunk, be empty or tiny, hold corrupt or oversized chunks, carry a bogus side-loaded index, refuse connections, cut connections, or answer with errors. A failing store never prevents the stores after it from being asked, for this chunk or later ones.",
 ["inputs","configurations","fault_sequences"],
 "all indices, all distributions of chunks over stores, all misbehaviours of the remaining stores, all orders",
 "The tests use one local store plus one HTTP server, both healthy except for one flipped chunk; tiny or empty stores, several failing stores and every error answer are untested.",
 ["store.c","store-local.c","store-http.c","index.c","main.c"],
 [("fall through to the next store","store.c:store_chain_get_chunk"),("deactivation of failed stores","store.c:store_chain_get_chunk"),("index sizing","index.c:index_init, index_insert")],
 ["exit status","final target","requests seen by the HTTP servers"],
 [("substore.active","store still queried","store.c")])

prop("C04", "A wrong side-loaded index is discarded and the run goes on without it",
 "If the index side-loaded for a local store is malformed, was made with other chunk size parameters, or is found on use to disagree with the store (bit-rot, wrong or out-of-range offsets, wrong lengths, other image), it is discarded: from then on every chunk that chunking the store itself yields is served from that store, exactly as if no index had been given, and the run neither crashes nor loses the store. A side-loaded index that matches the store is used without being discarded, so that chunks it lists are served locally even if re-chunking the store would not produce them.",
 ["inputs","histories"],
 "all contents of the local store and of the side-loaded index, all sequences of chunk requests",
 "One test corrupts one chunk of a store with three chunks; entries pointing outside the store, oversized entries, empty or malformed indices, parameter mismatches and stores that cannot be re-chunked are not tested.",
 ["store-local.c","caibx.c","index.c","chunker.c"],
 [("side-loading","store-local.c:store_sideload_index"),("validation and rescan","store-local.c:store_local_get_chunk"),("parameter comparison","store-local.c:store_sideload_index")],
 ["exit status and final target","which chunks an HTTP fallback store is asked for"])

prop("C05", "Local stores are chunked exactly as casync chunks them",
 "For every file content and every accepted minimum/average/maximum chunk size, splitting a local store yields exactly the chunks (boundaries and SHA-256 IDs) that casync yields for that content and those sizes, including the final short chunk. The result does not depend on how reads of the store are split up or interrupted. Hence an image can be extracted from a store holding the same bytes with no other source.",
 ["inputs","configurations"],
 "all contents, all size parameters, all segmentations of reads",
 "One pseudo-random 10 MB stream is chunked with the default sizes in 512 byte feeds; other parameters, low-entropy data, boundary coincidences with the read buffer and file ends are untested.",
 ["chunker.c","store-local.c","sha.c"],
 [("rolling hash and break decision","chunker.c:chunker_scan, chunker_shall_break"),("scan loop over a file","chunker.c:chunker_scan_fd"),("discriminator","chunker.c:chunker_init")],
 ["which of the reference chunks csn can serve from the store (exit status, requests to a fallback server)"])

prop("C06", "Interrupted runs resume: no lost progress and a correct final image",
 "From any previous content of the target - in particular whatever a run killed at any point left behind - running the same command again with its stores available exits 0 and yields the exact image; so do several runs with the same index that work on the target at the same time. The leading chunks that the target already holds correctly are neither requested from any store nor written again, even if no store can supply them any more, and everything from the first incorrect chunk on is brought into place.",
 ["crash_points","inputs","histories"],
 "all kill points, repeated kills, all initial target contents including partly correct ones",
 "One test pre-writes two of three chunks; no run is ever interrupted, and targets that match in the middle, partially, or are shorter than the image are untested.",
 ["main.c","target.c"],
 [("prefix skipping","main.c:entry_cb"),("hash check of target contents","target.c:target_check_chunk")],
 ["requests seen by the server","writes to the target","final target and exit status"],
 [("resuming","still inside the already synchronised prefix","main.c:entry_cb")])

prop("C07", "Stores are asked in order, and nothing is fetched needlessly",
 "Stores are consulted in command-line order: a chunk that an earlier store supplies is never requested from a later one, and a chunk missing from an HTTP store is requested from it exactly once per attempt to obtain it. An immediately repeated chunk is fetched once; if the target is listed as a store ahead of an HTTP store, no chunk that the run has already written or skipped as correct is requested from that HTTP store. Requests are only made for chunks the index lists, as GET <store>/<first 4 hex digits>/<64 lower-case hex digits>.cacnk (.cacnk.enc for encrypted stores).",
 ["inputs","configurations","histories"],
 "all indices with repetitions, all distributions of chunks over several local and HTTP stores, all orders",
 "Two tests count the requests for one duplicated chunk; order among several stores, interplay of skipped prefix and target-as-store, and larger repetition patterns are untested.",
 ["main.c","store.c","target.c","store-http.c","index.c"],
 [("store order","store.c:store_chain_get_chunk"),("reuse of the previous chunk","main.c:entry_cb"),("target index","target.c:target_add_chunk, target_get_chunk"),("URL construction","store-http.c:set_url")],
 ["complete request logs of several HTTP servers, compared with a reference model"])

prop("C08", "Transient HTTP failures: bounded retries, full recovery, then shutdown",
 "A download that cannot connect, cannot resolve the host or times out (before or in the middle of the body) is attempted up to ten times with waits that start at 0.2 s and double up to 10 s; if any attempt succeeds the chunk is used, regardless of how much data earlier attempts had delivered. A download that keeps delivering data (tens of bytes per second or more) is not given up, however long it takes, while one that has stopped altogether is abandoned within a minute. A download that fails all attempts, or that is answered with an HTTP error status other than 404 and 410, counts as one failure and the chunk is looked for in the next store. After more than ten failures with no chunk successfully delivered in between the store is not contacted again during the run; fewer do not disable it, and a 404 or 410 neither counts as a failure nor resets the count.",
 ["fault_sequences","histories"],
 "all sequences of per-attempt outcomes, all amounts of data delivered before a failure, plain and encrypted stores",
 "No test makes a connection fail; retries, waits, the failure counter and recovery after partial data have never been executed by the suite.",
 ["store-http.c","store.c"],
 [("retry loop","store-http.c:retried_curl_easy_perform"),("failure counter","store-http.c:increase_error_counter"),("deactivation","store.c:store_chain_get_chunk")],
 ["transfer attempts and waits (logged at the libcurl/usleep boundary)","exit status, final target"],
 [("error_count","failures since the last good response","store-http.c")])

prop("C09", "HTTP bodies decode independently of segmentation; bad ones are refused",
 "Whether an HTTP response that is complete at the HTTP level supplies a chunk depends only on the bytes of its body, not on how they arrive: every complete zstd stream (one or more frames, any level, with or without checksum or content size) that decompresses to exactly the chunk is accepted under every segmentation. Every other body - truncated, corrupted, empty, too short, not zstd, decompressing to other or more data, followed by garbage - never yields a chunk other than the wanted one and only makes the chunk unavailable from this store, without a crash and without disabling the store.",
 ["inputs","schedules"],
 "all response bodies and all their segmentations into network reads, plain and encrypted",
 "The tests serve well-formed single-frame bodies of a few hundred bytes in one write; the decode buffer, split magic numbers, several frames and hostile bodies are not exercised.",
 ["store-http.c"],
 [("streaming decompression","store-http.c:handle_data"),("carry-over buffer","store-http.c:decode_buffer_absorb, store_http_data_cb"),("ID check","store-http.c:store_http_get_chunk")],
 ["exit status, final target and requests under forced segmentations of the same body"],
 [("decode_buffer","bytes received but not yet consumed","store-http.c"),("http_request_state","magic seen / failed","store-http.c")])

prop("C10", "Encrypted stores: XChaCha20 as documented, and only the right key works",
 "For every key, chunk ID and chunk, an encrypted store serving the compressed chunk XORed with the XChaCha20 keystream (key, nonce = first 24 bytes of the chunk ID, counter 0) at <id>.cacnk.enc extracts to the same image as the plain store, under every segmentation of the response and across any number of chunks. With a wrong key, or with plain data where encrypted data is expected or the reverse, no chunk is accepted from that store. What csn-tool encrypts, csn reads, and the reverse holds for an independent implementation.",
 ["inputs","configurations"],
 "all keys, IDs, chunk sizes and segmentations",
 "The unit tests check published vectors of at most 304 bytes; one end-to-end test uses one key. Key stream continuation across odd segment sizes, large bodies and re-initialisation between chunks are untested.",
 ["encrypt.c","store-http.c","csn-tool.c","doc/chunk-encryption.md"],
 [("HChaCha20 subkey and nonce","encrypt.c:encrypt_restart"),("keystream application","encrypt.c:encrypt_do"),("restart per chunk","store-http.c:store_http_get_chunk")],
 ["extraction results against an independent XChaCha20 implementation"])

prop("C11", "csn-tool crypt writes exactly the crypted input, once, and nothing else",
 "For a readable input named <64 hex digits>.cacnk or .cacnk.enc, csn-tool crypt that exits 0 has written to the output path (given, derived by adding or removing .enc, or standard output for -) exactly the input XORed with the XChaCha20 keystream for that key and ID, for every input length including zero; applying it twice restores the input. An existing output file is left unmodified, the input is never changed, and badly named inputs are refused without creating output. With a list on standard input every line is processed the same way, and a write error makes the exit status non-zero and leaves no partial output behind that a later run would take for finished.",
 ["inputs","configurations","fault_sequences"],
 "all names, lengths, keys, forms of invocation, short writes and write errors",
 "No test runs csn-tool at all; it is only compiled.",
 ["csn-tool.c","encrypt.c","utils.c"],
 [("ID from file name","csn-tool.c:chunk_id_from_path"),("output path derivation and existence check","csn-tool.c:encrypt_one"),("list mode","csn-tool.c:do_crypt")],
 ["output files, exit status, compared with an independent XChaCha20 implementation"])

prop("C12", "Keys: one meaning in all keyspec forms, strict syntax, never disclosed",
 "key:HEX, env:NAME and file:PATH denote the same key for the same 64 hexadecimal digits (either case; a key file may end in a line break), in csn store attributes and in csn-tool. Any other key text - wrong length, non-hex characters, missing variable or file, unknown form or attribute - makes the program exit non-zero without any HTTP request, without output file and without touching the target. A key in use never appears in anything the programs print at any log level, or in requests.",
 ["inputs","configurations"],
 "all key texts, forms, log levels, successful and failing runs",
 "One test passes one key in one form; parsing, rejection and log output are never checked.",
 ["encrypt.c","store-http.c","utils.c","csn-tool.c"],
 [("keyspec parsing","encrypt.c:encrypt_parse_keyspec"),("hex decoding","utils.c:parse_hex"),("attribute parsing","store-http.c:store_handle_params")],
 ["exit status, outputs, request logs, stderr/stdout scanned for key digits"])

prop("C13", "Invalid index files are refused; valid ones are interpreted exactly",
 "An index whose framing is invalid (wrong size, magic numbers, unsupported feature flags such as SHA-512/256, header shorter than defined, chunk sizes not strictly increasing or beyond 32 bits, wrong footer fields or tail marker) is refused with a non-zero exit status before the target is modified. Chunk table entries that do not strictly increase in offset or exceed the supported chunk size make the run fail instead of being skipped or reinterpreted. Every index casync makes for SHA-256 with chunks of up to 256 KiB, including that of an empty image, is accepted and yields exactly its image.",
 ["inputs"],
 "all byte contents of the index file: every field value, truncation and extension",
 "The tests only read well-formed indices; none of the validation branches is executed by the suite.",
 ["caibx.c","chunker.c","main.c"],
 [("header, table and footer validation","caibx.c:load_index_header, validate_table_header, validate_table_footer"),("size arithmetic","caibx.c:caibx_load_header"),("entry iteration","caibx.c:caibx_iterate_entries"),("parameter validation","chunker.c:chunker_params_set")],
 ["exit status and target contents, against an independent index parser"])

prop("C14", "No input makes the tools crash, hang or violate memory safety",
 "For every content of the index, side-loaded index, local stores, target, key file and HTTP responses, and for every command line, csn, casync, csn-tool and patchdd terminate by a normal exit: no out-of-bounds or use-after-free access, no use of uninitialised memory, no undefined behaviour, no failed assertion, no signal, and no endless loop.",
 ["inputs","configurations","fault_sequences"],
 "all input bytes and command lines, including malformed and adversarial ones",
 "The suite runs with sanitizers but only on well-formed inputs and mostly one code path; csn-tool, patchdd and the casync command line are never run.",
 ["caibx.c","index.c","chunker.c","store-local.c","store-http.c","store.c","main.c","csn-tool.c","patchdd.c","encrypt.c","utils.c","log.c"],
 [("length checks before use of the chunk buffer","main.c:entry_cb, store-local.c:store_local_get_chunk, target.c:target_get_chunk"),("array growth","index.c:index_insert"),("ownership of index arrays","index.c:index_cleanup")],
 ["AddressSanitizer/UBSan reports, valgrind memcheck reports, wait status"])

prop("C15", "Short and interrupted I/O is invisible; hard I/O errors are never swallowed",
 "If any reads and writes of the index, stores, target, key files or patchdd and csn-tool files transfer fewer bytes than asked for or are interrupted by signals, results are identical to undisturbed runs. A hard error while writing the target (or the output of patchdd or csn-tool), a premature end or an error while reading the index, makes the exit status non-zero. A hard read error on a local store in use only takes that store out, so that chunks other stores can supply still arrive, and a read error on the target's old contents only ends prefix skipping.",
 ["fault_sequences"],
 "every I/O call position crossed with short transfer, EINTR, EIO, ENOSPC and premature end of file",
 "Regular files in the tests never return short counts, EINTR or errors, so none of the retry loops or error branches is executed.",
 ["utils.c","chunker.c","target.c","store-local.c","caibx.c","patchdd.c","csn-tool.c"],
 [("full-transfer loops","utils.c:readall, preadall, writeall, pwriteall"),("EINTR in the scan loop","chunker.c:chunker_scan_fd"),("error propagation","main.c:entry_cb, store.c:store_chain_get_chunk")],
 ["exit status and final files under injected system-call results"])

prop("C16", "Hashing through the kernel crypto API gives the same results",
 "With CSN_KCAPI_DRIVER set and the kernel interface available, every run has the same exit status and final target as with software hashing. This remains so if the kernel interface accepts data only in parts, is interrupted, returns errors at any send or receive, or returns a digest of the wrong length: the affected and all later hashes are then computed correctly in software. If the interface cannot be set up at start, the run fails without touching the target.",
 ["fault_sequences","inputs"],
 "all positions and kinds of kernel interface failures during a run, all data lengths",
 "The kernel of the test environment lacks AF_ALG, so these paths fail in setup; no test injects failures into a working interface.",
 ["sha.c","main.c"],
 [("send/recv protocol","sha.c:sha_once"),("fallback to OpenSSL","sha.c:sha_once"),("setup","sha.c:sha_kcapi_init")],
 ["exit status and final target with an emulated AF_ALG socket that counts operations and injects failures"],
 [("kcapi_fd","kernel hash socket or -1","sha.c")])

prop("C17", "patchdd makes the destination start with the source and changes nothing else",
 "When patchdd SRC DST exits 0, the first size(SRC) bytes of DST equal SRC, all bytes of DST beyond that are unchanged, SRC is unchanged, DST's size is unchanged and the data has been synced to the device after the last write. A DST smaller than SRC is refused with a non-zero status and left untouched. If interrupted at any point, every byte of DST is either its old value or SRC's, and a further run completes the job; a DST that already starts with SRC is not written to.",
 ["inputs","crash_points","fault_sequences"],
 "all sizes and contents including those around the 1 MiB transfer size, files and block devices, all kill points",
 "No test runs patchdd at all; it is only compiled.",
 ["patchdd.c","utils.c"],
 [("block loop and first difference","patchdd.c:main, memcmp_offset"),("size check","patchdd.c:main"),("device size","utils.c:fd_size, blockdevice_size"),("fsync","patchdd.c:main")],
 ["final files, logged writes and fsync, exit status"])

prop("C18", "Inputs are never modified and a missing target is never created",
 "No run of csn, casync, patchdd or csn-tool, successful or not, modifies the contents or size of an index, a side-loaded index, a local store that is not the target, a key file, patchdd's source or csn-tool's input, or creates or removes any file other than csn-tool's output. If TARGET (or patchdd's destination) does not exist, the run fails with a non-zero exit status and does not create it.",
 ["inputs","configurations","fault_sequences"],
 "all runs, command lines and failure modes",
 "The tests never compare inputs before and after, never pass a missing target, and never look for stray files.",
 ["target.c","store-local.c","main.c","patchdd.c","csn-tool.c","utils.c"],
 [("open flags","target.c:target_new, store-local.c:store_local_new, main.c:csn, casync, patchdd.c:main")],
 ["snapshot of the whole scratch directory before and after each run"])

prop("C19", "casync command line: same behaviour as csn with the same stores",
 "casync [options] extract INDEX TARGET with --store and --seed options (in either --opt=value or --opt value form, in any number) has the same exit status class, final target and HTTP requests as csn INDEX TARGET with those stores in the same order; --seed-output with any value is accepted and changes nothing. Asking for help, a command other than extract, an unknown option or missing arguments leaves the target unmodified, and all but the request for help exit non-zero.",
 ["configurations","inputs"],
 "all option orders and forms, all numbers of stores, malformed command lines",
 "No test runs the binary under the name casync; the option parser is only compiled.",
 ["main.c","store.c"],
 [("option parsing","main.c:casync"),("store creation","main.c:append_store_from_arg"),("chain growth","store.c:store_chain_append")],
 ["exit status, final target and request logs of paired runs"])

prop("C20", "Memory and descriptors stay bounded whatever the image or server sends",
 "The peak memory of an extraction does not grow with the size of the image, the number of chunks fetched, verified or rescanned, or the size of HTTP response bodies, apart from a fixed small record (below 200 bytes) per table entry of the indices and stores in use. The number of open file descriptors does not grow with the number of chunks or transfers.",
 ["inputs","histories"],
 "all image sizes, numbers of chunks and rescans, and response sizes including endless or highly compressed bodies",
 "No test measures memory; all images are below 1 MiB and all responses are tiny.",
 ["store-http.c","index.c","main.c","store-local.c"],
 [("fixed chunk buffer","main.c:entry_cb"),("carry-over buffer","store-http.c:decode_buffer_absorb"),("index arrays","index.c:index_insert")],
 ["maximum resident set size and open descriptors of the process, compared across scaled workloads"],
 [("decode_buffer_size","capacity of the carry-over buffer","store-http.c")])

prop("C21", "Block devices as target, store, source or destination behave like files",
 "When the target, a local store, or patchdd's source or destination is a block device, the results are the same as for a regular file of the same size and contents, for every device size that is a multiple of 512 bytes including those beyond 4 GiB. If the device is too small for the image (or for patchdd's source) the exit status is non-zero.",
 ["inputs","configurations"],
 "all device sizes and contents in every role",
 "The tests only use regular files although block devices are the tool's main use; the size query for devices is never executed.",
 ["utils.c","store-local.c","patchdd.c","target.c"],
 [("size query","utils.c:fd_size, blockdevice_size"),("chunk estimate from the size","store-local.c:store_scan")],
 ["final contents, exit status with devices emulated at the system-call boundary"])

prop("C22", "Logging, terminal and progress display never change the outcome",
 "For every LOGLEVEL value (valid or not), with standard output and error being terminals, files, closed or full, and with the progress display on or off, a run has the same exit status, final target and HTTP requests as in the default environment. The progress display never exceeds 100 percent and, in a run that succeeds on a non-empty image, ends at 100.",
 ["configurations","inputs"],
 "all combinations of log levels and output kinds, all index lengths and outcomes",
 "The tests run with one log level and captured output; the progress display is never enabled.",
 ["log.c","ui.c","main.c","patchdd.c"],
 [("level filtering","log.c:check_loglevel, u_log_init"),("progress display","ui.c:show_progress, main.c:entry_cb, patchdd.c:main")],
 ["exit status, final target, requests, bytes written to a pseudo terminal"])

prop("C23", "HTTPS stores: valid certificates only, and redirects stay on HTTP",
 "A store with an https:// URL gives the same exit status, final target and requests as the same store over plain HTTP if its server presents a certificate that is valid now, matches the host name or address in the URL and was issued by an authority the system trusts. From a server that cannot do so - unknown issuer, self-signed, other name, expired or not yet valid, incomplete chain, or no TLS - nothing is taken and no request, hence no chunk ID, is sent to it; the chunks are looked for in the next stores. A redirect is followed in the same way, is never followed to a local file or to a protocol other than the web's, and endless redirects make the chunk unavailable from this store instead of keeping the run busy.",
 ["inputs","configurations"],
 "all certificates, host names, redirect targets and store combinations",
 "No test uses an https:// URL or a redirect, so neither verification nor its absence would be noticed.",
 ["store-http.c","main.c"],
 [("transfer set-up","store-http.c:store_http_new"),("error handling","store-http.c:store_http_get_chunk"),("choice of the store type","main.c:append_store_from_arg")],
 ["requests seen by the servers","exit status, final target"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
