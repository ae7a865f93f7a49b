#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the prose is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SMALL = "cfg(deflate_mc_small): scaled window/match/token-buffer/output-buffer/stored-chunk sizes and a block-type override, so that every window slide, overlap and buffer-full alignment is reachable with ~20-byte inputs"

prop("C01", "One-shot compression is lossless for every input and every option",
 "For every byte sequence and every combination of compression options, decompressing what deflate_bytes / deflate_bytes_conf returns yields exactly the input. This includes empty input, inputs around every window, match-length, distance and block boundary, and all extreme option values.",
 ["inputs", "configurations"], "all inputs (any length and content) x all CompressionOptions values",
 "The tests compress a handful of files and a few short strings at the three presets; the bugs that matter sit at particular alignments of matches with the 32 KiB window edge, the token-buffer limit and the end of the input, which no fixed sample covers.",
 ["src/lib.rs", "src/compress.rs", "src/lz77.rs", "src/matching.rs", "src/chained_hash_table.rs", "src/input_buffer.rs", "src/rle.rs", "src/huffman_table.rs", "src/encoder_state.rs", "src/bitstream.rs", "src/stored_block.rs"],
 [("LZ77 window processing with lookahead overlap", "src/lz77.rs lz77_compress_block"), ("match search on hash chains", "src/matching.rs longest_match"), ("window/hash sliding", "src/input_buffer.rs slide, src/chained_hash_table.rs slide"), ("length/distance code tables", "src/huffman_table.rs")],
 ["return value of deflate_bytes / deflate_bytes_conf"], SMALL)

prop("C02", "Every produced stream is strictly valid RFC 1951",
 "Every finished raw stream is a sequence of well-formed blocks that a strict decoder accepts: complete prefix codes (only a single-symbol distance code may be incomplete), legal counts and code-length repeats, only defined symbols, every distance within both 32768 and the data produced so far, stored lengths matching their complement. Exactly one block, the last, is marked final, and the stream ends with the byte that holds its last bit, with no bytes after it.",
 ["inputs", "configurations", "histories"], "all inputs x options x write/flush/reset histories",
 "Tests decode with one lenient decoder and only look at the decoded bytes; over-subscribed or incomplete codes, doubled final blocks, out-of-range symbols or trailing bytes appear only for particular symbol histograms and flush placements.",
 ["src/huffman_lengths.rs", "src/length_encode.rs", "src/huffman_table.rs", "src/compress.rs", "src/stored_block.rs", "src/bitstream.rs"],
 [("length-limited code construction", "src/length_encode.rs in_place_lengths, enforce_max_code_lengths"), ("code-length run-length coding", "src/length_encode.rs encode_lengths_m"), ("dynamic header", "src/huffman_lengths.rs write_huffman_lengths"), ("final-block handling", "src/compress.rs compress_data_dynamic_n")],
 ["bytes received by the wrapped writer"], SMALL)

prop("C03", "zlib output has a valid header and the right Adler-32 for every input",
 "Everything produced by deflate_bytes_zlib[_conf] or a ZlibEncoder, however it was written, flushed or reset, is one RFC 1950 stream: a two-byte header with deflate method, a window size covering all distances used, no preset dictionary and a valid check value, then one raw deflate stream of exactly the accepted data, then its big-endian Adler-32, and nothing else.",
 ["inputs", "configurations", "histories"], "all inputs x options x write/flush/reset histories of the zlib encoder",
 "Tests round-trip one text file through a decoder; header placement relative to flush and reset, and the checksum of data accepted in partial writes, are only exercised by specific call sequences.",
 ["src/zlib.rs", "src/writer.rs", "src/checksum.rs", "src/lib.rs"],
 [("header once before any data", "src/writer.rs ZlibEncoder::check_write_header"), ("rolling checksum of accepted bytes", "src/writer.rs ZlibEncoder::write, src/checksum.rs"), ("trailer", "src/writer.rs ZlibEncoder::write_trailer")],
 ["bytes received by the wrapped writer", "return value of deflate_bytes_zlib"], SMALL)

prop("C04", "gzip output is one valid member with the given header, CRC-32 and size",
 "Everything produced by deflate_bytes_gzip[_conf] or a GzEncoder is exactly one RFC 1952 member: the header fields given through the builder (name, comment, extra, mtime, OS, header text/CRC flags) are preserved, followed by one raw deflate stream of exactly the accepted data, the little-endian CRC-32 and length modulo 2^32 of that data, and nothing else. This holds however the encoder was written, flushed or reset, with each reset starting a new member that carries the new header.",
 ["inputs", "configurations", "histories"], "all inputs x options x header builders x write/flush/reset histories of the gzip encoder",
 "Tests check one comment field on one file; flush-before-write, reset_with_builder, empty members and combinations of header fields are not enumerated.",
 ["src/writer.rs", "src/lib.rs"],
 [("header emitted once", "src/writer.rs GzEncoder::check_write_header"), ("CRC and count of accepted bytes", "src/writer.rs GzEncoder::write"), ("trailer", "src/writer.rs GzEncoder::write_trailer"), ("one-shot gzip", "src/lib.rs deflate_bytes_gzip_conf")],
 ["bytes received by the wrapped writer", "return value of deflate_bytes_gzip"], SMALL)

prop("C05", "How input is split across writes does not change the output",
 "The bytes produced by an encoder depend only on the concatenation of the data written, the positions in it at which flush was called, and the options, not on how the data was divided into write calls (including empty ones); without flushes they equal what the corresponding one-shot function returns.",
 ["inputs", "histories", "configurations"], "all inputs x all partitions of the input into write calls x options, for the raw, zlib and gzip encoders",
 "Tests split one file in half; a split at the exact byte where the input buffer fills, the lookahead ends or a lazy match is pending is hit only by enumeration of split points.",
 ["src/compress.rs", "src/lz77.rs", "src/input_buffer.rs", "src/writer.rs"],
 [("buffering until a full window plus lookahead is available", "src/lz77.rs lz77_compress_block"), ("pending match/byte state carried between calls", "src/lz77.rs ChunkState"), ("partial consumption of the caller's buffer", "src/compress.rs compress_data_dynamic_n")],
 ["bytes received by the wrapped writer"], SMALL)

prop("C06", "After flush() everything accepted so far is decodable",
 "When flush() returns Ok, the bytes delivered to the wrapped writer so far decode to exactly the data accepted so far and end at a byte boundary with an empty stored block (00 00 FF FF), without a final block. The stream remains open: any later writes, flushes and the finish still produce one valid stream of all accepted data.",
 ["inputs", "histories", "configurations"], "all inputs x all placements of one or more flushes between writes (also before the first, doubled, and right before finish) x options x encoder kinds",
 "One test flushes once in the middle of one file; the flush path has its own position bookkeeping in the first, second and later windows and interacts with pending lazy matches and window slides.",
 ["src/lz77.rs", "src/compress.rs", "src/writer.rs", "src/input_buffer.rs"],
 [("sync flush", "src/compress.rs compress_data_dynamic_n (needs_flush)"), ("position bookkeeping after sync", "src/lz77.rs lz77_compress_block (overlap, was_synced)"), ("flush entry points", "src/writer.rs Write::flush impls")],
 ["bytes received by the wrapped writer at the moment flush returns", "final stream"], SMALL)

prop("C07", "Short writes and interruptions by the sink never change the output",
 "If the wrapped writer never fails for good but accepts only part of each buffer or returns Interrupted, in any pattern, then write_all, flush, finish and reset all succeed and the bytes it receives are exactly those an always-accepting writer would receive.",
 ["fault_sequences", "inputs", "histories"], "all sequences of sink answers from {accept all, accept 1..n-1 bytes, Interrupted} x operation histories x encoder kinds",
 "Tests use Vec as sink, which always accepts everything; only one test has a partial writer with a fixed pattern.",
 ["src/compress.rs", "src/writer.rs", "src/deflate_state.rs"],
 [("resume position in the output buffer", "src/deflate_state.rs output_buf_pos"), ("drain when output buffer is large", "src/compress.rs LARGEST_OUTPUT_BUF_SIZE branch"), ("retry loop", "src/writer.rs compress_until_done")],
 ["bytes received by the wrapped writer"], SMALL)

prop("C08", "A failing sink never leads to a corrupt stream or a false success",
 "Whatever errors the wrapped writer returns and whenever it does, the bytes it has accepted are always a prefix of one valid stream of the data accepted by the encoder, Ok from flush or finish/reset means that data (for finish/reset: the complete stream with trailer) was really delivered, and data is neither lost nor duplicated. After an error the caller may retry the same call, continue with other calls, or drop the encoder; once the writer recovers, the stream is completed correctly.",
 ["fault_sequences", "histories"], "all placements of up to k failing/short sink answers (error kinds Interrupted, WouldBlock, Other; accept 0 or part) in the sink-call sequence x operation histories x caller policies (retry the call, go on, finish, drop)",
 "No test uses a writer that returns an error; the states left behind by a failure at each particular sink call have to be enumerated.",
 ["src/compress.rs", "src/writer.rs", "src/deflate_state.rs"],
 [("needs_flush / output_buf_pos state surviving errors", "src/deflate_state.rs"), ("error propagation after bytes were consumed", "src/compress.rs compress_data_dynamic_n"), ("trailers", "src/writer.rs write_trailer"), ("reset on failure", "src/deflate_state.rs reset")],
 ["sequence of (call, result) at the encoder API", "bytes received by the wrapped writer"], SMALL)

prop("C09", "Every call terminates, including with a sink that accepts nothing",
 "Every public call returns after a number of calls to the wrapped writer bounded in terms of pending output and of how often the writer made no progress; a writer that answers Ok(0) to a non-empty buffer, such as a full slice, results in an error of kind WriteZero and never in an endless loop (dropping included); once the writer has answered with an error other than Interrupted, or Ok(0), a running write, flush or reset makes no further call to it. A single write() call consumes at least one byte of a non-empty buffer or returns an error (except on an encoder whose stream a failed reset has already ended, which accepts nothing more).",
 ["fault_sequences", "histories", "inputs"], "all operation histories x sinks of every small capacity and all sequences of Ok(0)/short/Interrupted answers",
 "No test has a sink that can be full; non-termination depends on the exact call at which the sink stops accepting.",
 ["src/compress.rs", "src/writer.rs"],
 [("loop exits", "src/writer.rs compress_until_done"), ("zero-length sink answers", "src/compress.rs compress_data_dynamic_n")],
 ["number of calls the sink receives per API call", "result of each API call"], SMALL)

prop("C10", "A reset encoder behaves exactly like a new one",
 "After reset(w) (or reset_with_builder) returns Ok, the returned writer holds the complete finished stream of the data accepted before, and for every later sequence of calls the encoder produces on w byte for byte what a newly created encoder with the same options would.",
 ["histories", "inputs", "configurations"], "all histories (writes, flushes, earlier resets) before the reset x all histories after it x options x encoder kinds",
 "One test per encoder resets once and writes the same file again; stale hash chains, pending bytes, checksum or header state show up only for particular pairs of data before and after.",
 ["src/deflate_state.rs", "src/lz77.rs", "src/chained_hash_table.rs", "src/writer.rs"],
 [("state reset", "src/deflate_state.rs reset, src/lz77.rs LZ77State::reset"), ("hash table reset", "src/chained_hash_table.rs reset"), ("header/checksum reset", "src/writer.rs reset, reset_with_builder")],
 ["bytes on the old and new writer"], SMALL)

prop("C11", "Dropping an encoder completes the stream exactly once",
 "Dropping an encoder that was not finished, at any point of its life (unless its thread is unwinding from a panic), delivers exactly the bytes finish() would have delivered, provided the writer accepts them; after a successful finish() the writer receives nothing more, and after a reset the drop completes only the new stream.",
 ["histories", "inputs", "fault_sequences"], "all operation histories ending in drop x encoder kinds x sinks with short writes/transient errors",
 "Tests drop an encoder once on a trivially accepting sink; double completion and missing trailers depend on what happened before the drop.",
 ["src/writer.rs"],
 [("Drop impls", "src/writer.rs impl Drop"), ("writer taken on finish", "src/writer.rs finish")],
 ["bytes received by the wrapped writer"], SMALL)

prop("C12", "write() counts and checksum() reflect exactly the accepted bytes",
 "write(buf) returns n with 0 <= n <= buf.len() (n > 0 for non-empty buf when Ok, unless a failed reset has already ended the stream), the accepted stream is exactly the concatenation of those n-byte prefixes, an Err means nothing of buf was accepted, and checksum() of the zlib and gzip encoders at any time equals the Adler-32/CRC-32 of the bytes accepted since creation or the last successful reset.",
 ["histories", "fault_sequences", "inputs"], "all histories of writes (any sizes), flushes and resets x sink answer sequences",
 "The tests never look at the value returned by write nor at checksum() between operations, and never with a sink that pushes back.",
 ["src/compress.rs", "src/writer.rs", "src/checksum.rs", "src/lz77.rs"],
 [("consumed count", "src/compress.rs compress_data_dynamic_n bytes_written"), ("checksum update by consumed count", "src/writer.rs Write::write impls")],
 ["return values of write", "checksum()", "decoded stream"], SMALL)

prop("C13", "Compressed size never exceeds input plus the stored-block overhead",
 "For every input of n bytes and all options, the raw stream is at most n bytes plus 42 bits for each of floor(n/31744)+1 blocks, rounded up to whole bytes; zlib adds exactly 6 bytes and a blank-header gzip member exactly 18. Each flush adds at most 11 bytes beyond that.",
 ["inputs", "configurations", "histories"], "all inputs (in particular incompressible ones of every length around the block limits) x options x flush placements",
 "Tests only check that outputs decode; that poorly compressible data falls back to stored blocks at every alignment and length is an all-inputs statement.",
 ["src/huffman_lengths.rs", "src/compress.rs", "src/stored_block.rs", "src/output_writer.rs"],
 [("block type choice", "src/huffman_lengths.rs gen_huffman_lengths"), ("stored size estimate", "src/huffman_lengths.rs stored_length, stored_padding"), ("tokens per block", "src/output_writer.rs MAX_BUFFER_LENGTH")],
 ["length of the output"], None)

prop("C14", "Each block uses the cheapest of the three encodings",
 "For each block, the number of bits written for it is no more than encoding the same block's tokens with the fixed codes would take, nor than storing the block's bytes (with headers and alignment) would take; and when a block whose tokens are visible is written fixed (or stored, with huffman_only) although more than 4 bytes long, a dynamic encoding of its tokens with optimal code lengths and a straightforward run-length coded header would not be noticeably shorter (by more than 1/256 + 16 bits, the room the encoder's own header and length-limiting heuristics are given). The empty stored block of a flush is exempt.",
 ["inputs", "configurations"], "all blocks of all inputs x options",
 "Tests never compare alternative encodings; a wrong cost term shows only for blocks whose alternatives are within a few bits of each other.",
 ["src/huffman_lengths.rs"],
 [("cost comparison", "src/huffman_lengths.rs gen_huffman_lengths, calculate_block_length, calculate_huffman_length, stored_length, stored_padding")],
 ["block boundaries, types and tokens as seen by a decoder"], None)

prop("C15", "Dynamic Huffman codes are optimal for the block's symbol counts",
 "In each dynamic block the literal/length code, the distance code and the code-length code give every used symbol a code and unused symbols none, and the total number of bits is the minimum possible for the symbol counts when the unrestricted optimum fits the length limit (15, resp. 7 bits). When the limit binds, the code is still complete, within the limit, never gives a rarer symbol a shorter code, and costs at most 2% more (10% for the code-length code) than the optimal length-limited code.",
 ["inputs"], "all symbol-count vectors that data can produce (Fibonacci-like, flat, single-symbol, ties, gaps)",
 "A handful of fixed vectors are tested; sub-optimal codes still decode, so round-trip tests cannot see them.",
 ["src/length_encode.rs", "src/huffman_lengths.rs", "src/output_writer.rs"],
 [("in-place minimum redundancy codes", "src/length_encode.rs in_place_lengths"), ("length limiting", "src/length_encode.rs enforce_max_code_lengths"), ("frequency counting", "src/output_writer.rs write_literal, write_length_distance, write_length_rle")],
 ["code lengths and tokens of each block as seen by a decoder"], None)

prop("C16", "The option values and presets mean what they document",
 "huffman_only emits no matches; rle encodes each run of equal bytes as one literal followed by distance-1 matches of 258 bytes while at least that much is left and one match for a remainder of at least 3 bytes, else literals, and emits no other matches; max_hash_checks above 32768 and lazy_if_less_than above 258 act as 32768 and 258; lazy_if_less_than 0 acts as greedy matching; the special option has no effect. The presets Fast, Default and Best, CompressionOptions::default() and the option-less functions are equivalent to their documented option values.",
 ["inputs", "configurations"], "all inputs x option pairs stated to be equivalent / restricted",
 "Tests check presets on one file; equivalence of options is a statement about all inputs.",
 ["src/compression_options.rs", "src/deflate_state.rs", "src/lz77.rs", "src/rle.rs"],
 [("option clamping", "src/deflate_state.rs DeflateState::new"), ("dispatch on matching type", "src/lz77.rs process_chunk"), ("run-length matcher", "src/rle.rs")],
 ["tokens as seen by a decoder", "byte equality of outputs"], SMALL)

prop("C17", "A panicking sink unwinds once and is not written to again while unwinding",
 "If the wrapped writer panics in any of its calls, the panic propagates to the caller of the encoder, dropping the encoder during that unwinding makes no further call to the writer and causes no second panic or abort, and the bytes accepted until then are a prefix of a valid stream.",
 ["fault_sequences", "histories"], "all operation histories x the position of the panicking sink call x encoder kinds",
 "No test has a panicking writer; the outcome depends on the call at which the panic occurs.",
 ["src/writer.rs"],
 [("no output while panicking", "src/writer.rs impl Drop (thread::panicking)")],
 ["calls received by the sink", "process survival"], SMALL)

prop("C18", "Memory use is bounded independently of the amount of data",
 "The heap memory held by an encoder never exceeds a fixed bound of 1 MiB, no matter how much data is written, how compressible it is, how the sink behaves (short writes, errors that the caller retries), and how often the encoder is flushed or reset; it does not grow over repeated identical histories and is released on drop.",
 ["histories", "fault_sequences", "inputs"], "all histories up to the bound, including long streams and permanently slow or failing sinks with retries",
 "Tests do not measure memory; unbounded growth of the output buffer appears only when the sink pushes back repeatedly.",
 ["src/compress.rs", "src/deflate_state.rs", "src/input_buffer.rs", "src/output_writer.rs"],
 [("no compression while much output is pending", "src/compress.rs LARGEST_OUTPUT_BUF_SIZE"), ("fixed input buffer", "src/input_buffer.rs BUFFER_SIZE"), ("token buffer", "src/output_writer.rs MAX_BUFFER_LENGTH")],
 ["a counting global allocator"], SMALL)

prop("C19", "With exhaustive search the match parse is the documented greedy/lazy one",
 "With max_hash_checks at its maximum, one-shot greedy compression emits at each position the longest match (nearest if tied) found within the preceding 32 KiB if it has at least 3 bytes (at least 4 when more than 8 KiB away), else a literal. Lazy compression differs only in emitting a literal instead of a match shorter than lazy_if_less_than exactly when the next position has a strictly longer match (looked for among the 8192 nearest candidates only, if the match has 32 bytes or more).",
 ["inputs", "configurations"], "all inputs x lazy_if_less_than values",
 "Existing tests compare a few hand-written token sequences; a missed hash insertion or an off-by-one in a chain only makes output larger for particular repeats, so it stays invisible to round-trip tests.",
 ["src/lz77.rs", "src/matching.rs", "src/chained_hash_table.rs"],
 [("hash chain insertion", "src/lz77.rs add_to_hash_table, src/chained_hash_table.rs add_with_hash"), ("chain walk", "src/matching.rs longest_match"), ("lazy decision", "src/lz77.rs process_chunk_lazy"), ("window slide", "src/chained_hash_table.rs slide")],
 ["tokens as seen by a decoder"], SMALL)

prop("C20", "Encoders are deterministic and independent of each other",
 "The output of an encoder is a function of its own options and call history only: running any other encoder's calls in between, nested inside the wrapped writer, before it, or on other threads, moving the encoder to another thread between calls, or repeating the history in the same process never changes a byte of it.",
 ["schedules", "histories"], "all interleavings of the calls of two (or three) encoders of any kind, with each encoder's calls on one thread or alternating between threads",
 "Tests run encoders one at a time; shared scratch state would only show in particular interleavings.",
 ["src/writer.rs", "src/deflate_state.rs", "src/length_encode.rs"],
 [("per-encoder buffers", "src/deflate_state.rs DeflateState, LengthBuffers")],
 ["bytes received by each sink"], SMALL)

prop("C21", "Repeats within the last 32 KiB are exploited at every preset",
 "For the Default and Best presets, when an incompressible chunk of 64 bytes or more occurs again at a distance of at most 32768 - 258 bytes, among data that is Huffman coded, in one-shot or streaming use without flush in between, and no other similar data intervenes, the repeat makes the output at most 24 + 4*ceil(len/258) bytes longer instead of its length, wherever the two copies lie relative to window boundaries and write calls.",
 ["inputs", "histories", "configurations"], "all positions, lengths and distances of the two copies x partitions into writes x presets",
 "A test checks that a file compresses to less than a size; loss of matching across a slide or write boundary only costs ratio at particular offsets.",
 ["src/lz77.rs", "src/chained_hash_table.rs", "src/matching.rs", "src/input_buffer.rs"],
 [("window retention", "src/input_buffer.rs slide"), ("hash chain slide", "src/chained_hash_table.rs slide"), ("hashing of bytes covered by overlapping matches", "src/lz77.rs bytes_to_hash")],
 ["length of the output"], None)

prop("C22", "No sequence of public calls panics",
 "No public function or encoder method panics, overflows or trips an internal assertion, with debug assertions enabled, for any input, options, call sequence and (non-panicking) sink behaviour, including calls made after an earlier call returned an error.",
 ["inputs", "configurations", "histories", "fault_sequences"], "all inputs x options x call histories x sink answer sequences",
 "Internal assertions about positions and block sizes are only reached by particular alignments; tests cover a few.",
 ["src/compress.rs", "src/lz77.rs", "src/writer.rs", "src/input_buffer.rs", "src/chained_hash_table.rs", "src/length_encode.rs", "src/bitstream.rs"],
 [("internal assertions", "src/compress.rs stored block position assert, src/lz77.rs debug_assert, src/input_buffer.rs slide assert")],
 ["panics seen by the caller"], SMALL)

prop("C23", "All entry points produce the same deflate stream",
 "For the same data and options the one-shot functions, their option-less variants, and the raw, zlib and gzip encoders (with the same write and flush history) all carry byte-identical deflate streams; the containers only add their header and trailer around it.",
 ["inputs", "histories", "configurations"], "all inputs x options x write/flush histories, compared across the entry points",
 "Each entry point is tested on its own with a decoder, never against the others.",
 ["src/lib.rs", "src/writer.rs"],
 [("one-shot wrappers", "src/lib.rs deflate_bytes_conf, deflate_bytes_zlib_conf, deflate_bytes_gzip_conf"), ("containers around the raw encoder", "src/writer.rs ZlibEncoder, GzEncoder")],
 ["outputs of all entry points"], SMALL)

prop("C24", "A flush cuts matches at its position but forgets nothing",
 "An encoder that is flushed at arbitrary positions makes the same choice of matches as documented for the whole data (C16, C19, C25), with the only difference that no match, and no look at the next position for a better one, goes beyond the next flush: data before a flush remains available for matches within 32 KiB, from the first byte after the flush on and up to the last byte before it, however many flushes there are and wherever they lie relative to the start of the stream and the window boundaries.",
 ["histories", "inputs", "configurations"], "all inputs x all sets of flush positions x options",
 "Tests flush once and decode; history lost at a flush only costs ratio, and only for repeats at particular places around it.",
 ["src/lz77.rs", "src/chained_hash_table.rs", "src/input_buffer.rs"],
 [("hashing across a flush", "src/lz77.rs lz77_compress_block was_synced"), ("window position after a flush", "src/lz77.rs lz77_compress_block overlap"), ("deferred match at a flush", "src/lz77.rs process_chunk_lazy")],
 ["tokens as seen by a decoder"], SMALL)

prop("C25", "max_hash_checks limits the search to exactly that many nearest candidates",
 "With max_hash_checks = n from 1 to 32768 the match used at a position is the longest (nearest if tied) among the n nearest earlier occurrences of the next three bytes within 32 KiB, for data in which different three-byte groups do not collide in the encoder's 15-bit hash; no match is missed within these n and none beyond them is used. Looking for a better match at the next position, lazy matching does the same, with a quarter of n once the match at hand has 32 bytes or more. The presets follow from their documented values.",
 ["inputs", "configurations"], "all inputs over letters with collision-free groups x values of max_hash_checks x matching types",
 "Tests only use a few presets and check that the output decodes; a wrong candidate count changes speed and ratio only.",
 ["src/matching.rs", "src/lz77.rs", "src/chained_hash_table.rs"],
 [("candidate loop", "src/matching.rs longest_match"), ("reduced checks for long matches", "src/lz77.rs process_chunk_lazy"), ("hash chains", "src/chained_hash_table.rs add_with_hash, get_prev")],
 ["tokens as seen by a decoder"], SMALL)

prop("C26", "Errors of the wrapped writer reach the caller unchanged",
 "If the wrapped writer answers a call with an error other than Interrupted while a flush, finish or reset is running, that call returns Err, and the error is the wrapped writer's own: the same kind, OS error number and inner error (from finish, whose drop may try again, the first one). write() returns it likewise, unless it has already taken in part of its buffer and returns Ok with that count. Conversely these calls return no error without such an answer: the only errors of the encoder's own are WriteZero if the wrapped writer answers Ok(0) to a non-empty buffer and, from write() alone, Interrupted as the request to try again.",
 ["fault_sequences", "histories"], "all placements of errors of every kind and OS number in the sink-call sequence x operation histories x caller policies x encoder kinds",
 "No test uses a writer that returns an error, so nothing notices if one is replaced, reported by the wrong call, made up or dropped.",
 ["src/compress.rs", "src/writer.rs", "src/deflate_state.rs"],
 [("error propagation", "src/compress.rs compress_data_dynamic_n, write_output"), ("Interrupted against other errors", "src/writer.rs compress_until_done"), ("trailers", "src/writer.rs write_trailer")],
 ["results of write, flush, reset and finish"], SMALL)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
