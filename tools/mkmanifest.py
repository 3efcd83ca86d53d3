"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: "
T = {
"C01": (PBT + "generated write histories, round-trip against the written pairs", "exploration", "Round-trip through the real writer and reader for generated pair sequences, encodings, targets and chunkings; small cases enumerated."),
"C02": (PBT + "stateful histories of the simple writer against a multiset model", "exploration", "The file's multiset of pairs, the item total and the caller's slices are compared with a model after every generated history."),
"C03": (PBT + "generated batch histories, sortedness of every block", "exploration", "Order and value pairing of every block, with permutation check."),
"C04": (PBT + "differential against an independent decoder of the documented format", "exploration", "A decoder written from the format description alone must recover the pairs and true statistics from every generated file."),
"C05": (PBT + "differential against an independent encoder of the documented format", "exploration", "Files laid out by an independent encoder, including layouts the writer never makes, must read back exactly."),
"C06": (PBT + "metamorphic (metadata = scan) and model oracle", "exploration", "Both aggregation paths against a model in 64-bit wrap-around arithmetic."),
"C07": (PBT + "model oracle over generated files and filter pairs", "exploration", "Filtered aggregates against a naive selection."),
"C08": (PBT + "metamorphic (parallel = sequential = model) over worker counts", "exploration", "Repeated runs for every worker count; completion orders are those the scheduler produces."),
"C09": (PBT + "validity predicate on the candidate list", "exploration", "Completeness, order, range and the omission rule, against the true content."),
"C10": (PBT + "model oracle over generated files and caching histories", "exploration", "Id bitmap against the set of written ids through histories of lookups and caching switches."),
"C11": (PBT + "stateful histories against a newest-wins model", "exploration", "Generated overlapping files and histories of multi-file aggregations."),
"C12": (PBT + "generated concurrent mixes against sequential answers, under the race detector", "exploration", "Interleavings are those the scheduler produces; races are found on executed paths only; all oracles also hold without the race detector."),
"C13": (PBT + "reference computation of the longest fitting prefix", "exploration", "An independent size computation gives the expected prefix and estimate for every call."),
"C14": (PBT + "invariants over the bytes of generated files", "exploration", "Tiling, alignment and zero padding of every generated file."),
"C15": (PBT + "metamorphic: a history with rejected calls equals the one without", "exploration", "Files compared byte for byte except the creation time."),
"C16": (PBT + "crash images enumerated at every file operation and inside every write of generated histories", "fault_enumeration", "Process crash model: completed writes stay, in order; power loss that reorders unsynced writes is not covered."),
"C17": (PBT + "fault injection at every file operation of generated histories, with retries", "fault_enumeration", "Single, partial, repeated and lasting faults at every operation; os is replaced below the package by a build overlay."),
"C18": (PBT + "read faults at every operation, unreadable ranges and cuts at many lengths of generated files", "fault_enumeration", "Every answer is an error or exactly the data; os is replaced below the package by a build overlay."),
"C19": (PBT + "structure-aware mutation of valid files with memory, time and descriptor limits", "exploration", "Structured and random damage; the serialized bitmap is not damaged because its library trusts it."),
"C20": (PBT + "sync state observed at every successful return of generated histories", "exploration", "Decided on the operations seen by the os stand-in."),
"C21": (PBT + "metamorphic: same calls give the same bytes, alone, over older content and beside other writers", "exploration", "Byte comparison except the creation time."),
"C22": (PBT + "generated command lines of the built binary against a model", "exploration", "Real process, real exit status, real file."),
"C23": (PBT + "generated command lines of the built binary against a model", "exploration", "Real process; the file is read back with the library."),
"C24": (PBT + "generated files, histories and 64-bit block indices", "exploration", "Metadata against what was written; bad indices and closed files."),
"C25": (PBT + "stateful read histories with mutation of returned values", "exploration", "Every answer is compared with the model after earlier results were overwritten; file bytes compared."),
"C26": (PBT + "invariant over the recorded read operations of generated query histories", "exploration", "Every read operation below the package is recorded by the os stand-in and compared with the blocks the query can need."),
"C27": (PBT + "generated contents, prior files, write failures and damage for the built binaries against a model", "exploration", "Real processes, real exit status, real files."),
"C28": (PBT + "open files, goroutines and held-back pairs counted after every step of generated histories under injected faults and damage", "fault_enumeration", "Descriptors are read from /proc; files are kept reachable, so the garbage collector closes none."),
}
checks = [{"property": k, "quick_cmd": f"python3 check.py {k}", "thorough_cmd": f"python3 check.py {k} --tier thorough",
           "evidence_file": f"evidence/{k}.json", "technique": t, "level": l, "level_note": n + ("" if k in ("C12", "C22", "C23", "C27") else " Thorough adds coverage-guided search over the same generators.") + " Sampling: what was not generated was not decided."} for k, (t, l, n) in T.items()]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo: fault checks replace package os below pkg/col through go build -overlay. replays/ keeps the minimal failing cases; replay one with check.py ID --replay FILE."}, f, indent=1)
    f.write("\n")
