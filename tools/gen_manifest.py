#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SMALL = "the scaled-down build (hook) for complete small spaces, the shipped constants for boundary-indexed families"
N = {
 "C01": ("exhaustive input/option enumeration on the real code, strict decoder as oracle", "All strings up to a length over small alphabets in the scaled build and all boundary-indexed inputs at real size, times option sets."),
 "C02": ("exhaustive input/history enumeration on the real code, strict RFC 1951 parser as oracle", "Every stream of C01's spaces plus streams from write/flush/reset histories."),
 "C03": ("exhaustive history enumeration of ZlibEncoder, RFC 1950 parser as oracle", "All histories up to a depth, x payloads x options, plus the one-shot functions."),
 "C04": ("exhaustive history x builder enumeration of GzEncoder, RFC 1952 parser as oracle", "All histories up to a depth x header builders, plus the one-shot functions."),
 "C05": ("exhaustive enumeration of write splits, differential against one-shot", "All compositions of short inputs in the scaled build; all pairs of boundary cuts at real size."),
 "C06": ("exhaustive enumeration of write/flush histories with an invariant after each flush", "Flush in every position of bounded histories, in all alignments of bit buffer, window and token buffer."),
 "C07": ("deviation-bounded enumeration of sink answers (short writes, Interrupted), differential", "All placements of up to k short writes/interruptions in every execution, and all short cyclic patterns."),
 "C08": ("deviation-bounded enumeration of sink faults and caller reactions against a reference model", "All placements of up to k faults x retry/proceed/drop policies on every bounded history; prefix and success invariants after each call."),
 "C09": ("exhaustive enumeration of non-progressing sinks with bounded-call monitors", "Full slices of every capacity, cyclic answers of every pattern up to length 3; step bound on sink calls."),
 "C10": ("exhaustive enumeration of histories around reset, differential against a fresh encoder", "All bounded histories before and after reset, with fault placements up to the reset."),
 "C11": ("exhaustive history enumeration, drop against finish, with slow and faulty sinks", "All bounded histories ended by drop, compared byte for byte with finish."),
 "C12": ("exhaustive history x fault enumeration, count and checksum monitors after each call", "Write contract and checksums checked after every call of every execution."),
 "C13": ("exhaustive enumeration of worst-case input families, size bound as oracle", "Incompressible and adversarial inputs around every block boundary x options."),
 "C14": ("exhaustive enumeration of block contents, recomputed block costs as oracle", "Costs of all three encodings recomputed from the decoded tokens of every block of every stream."),
 "C15": ("exhaustive enumeration of frequency shapes, reference Huffman/package-merge as oracle", "All frequency vectors up to a bound and all Fibonacci/near-limit shapes, through the public API."),
 "C16": ("exhaustive enumeration of options x inputs, reference RLE/option models and differential", "Every option value pair over inputs chosen to distinguish them."),
 "C17": ("enumeration of a panic at every sink call of every bounded history", "Every sink call of each execution is made to panic once; call log checked while and after unwinding."),
 "C18": ("exhaustive enumeration of repeated histories, allocation monitor", "Counting allocator; peak and growth over all bounded cyclic histories x sink behaviours."),
 "C19": ("exhaustive enumeration of strings, reference greedy/lazy LZ77 as oracle", "All strings over small alphabets in the scaled build; boundary families at real size."),
 "C20": ("exhaustive interleaving of two encoders' calls (same thread, nested in the sink, across threads, and preempted at every access to static memory inside of calls), differential", "All interleavings at call granularity of pairs of bounded histories; inside of calls, all schedules with at most one preemption of each of two threads at accesses to writable static memory, the only memory calls could share; weak memory orders are not modelled."),
 "C21": ("exhaustive enumeration of repeat placements, size bound as oracle", "Chunk length x distance x position across window boundaries x write cuts x preset."),
 "C22": ("exhaustive history x sink enumeration with panics and failed assertions as violations", "Union of the history, fault and input spaces, also calls after errors; debug assertions and overflow checks on."),
 "C24": ("exhaustive enumeration of flush position sets x inputs, reference LZ77 parse with cuts as oracle", "All sets of flush positions on short strings, all pairs on longer ones in the scaled build; positions around every buffer limit at real size."),
 "C25": ("exhaustive enumeration of inputs x candidate limits, reference limited-search LZ77 as oracle", "All strings over letters without hash collisions in the scaled build; boundary families reduced to 5-bit letters at real size."),
 "C26": ("deviation-bounded enumeration of sink errors, identity of the returned error as oracle", "Every error kind and OS error number at every sink call of bounded histories, all placements of up to k faults; each error carries the number of its sink call."),
 "C23": ("exhaustive enumeration of entry points, differential after stripping containers", "All one-shot variants and encoders over inputs x options x histories."),
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
m = dict(
    version=1, setup_cmd="python3 check.py setup",
    hooks=dict(guard="deflate_mc_small", enable='RUSTFLAGS="--cfg deflate_mc_small" (second build of the mc crate, target-small; the first build has the hook off)', source_commits=hook),
    checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                 technique="explicit enumeration of executions (stateless model checking): " + N[p["id"]][0], level="model_checking",
                 level_note=N[p["id"]][1] + " Complete within the bounds in the evidence file; explored on " + SMALL + ". Trusts the reference models in mc/src (cross-checked against miniz_oxide and zlib at setup).") for p in props],
    not_applicable=[], notes="Bounds, oracles, findings and detection results are in DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
